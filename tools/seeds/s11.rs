//! property: C18
//! needs: a cache that is cloned for a follower before it is full, followed by new values
//! breaks: the clone numbers new values from the start, so the decoder's codes differ from the encoder's
//! feat: unicache
/*EDIT omnipaxos/src/unicache/lru_cache.rs
            lru_cache_decoder: LruWrapper(cloned_decoder),
            encoding: self.encoding.clone(),
===
            lru_cache_decoder: LruWrapper(cloned_decoder),
            encoding: Encoded::default(),
*/
use omnipaxos::unicache::{lru_cache::LRUniCache, FieldCache};
fn main() {
    let mut enc: LRUniCache<String, u8> = LRUniCache::new(4);
    for w in ["a", "b"] {
        let _ = enc.try_encode(&w.to_string());
    }
    let mut dec = enc.clone();
    for w in ["c", "a", "c", "b", "d", "a", "c", "d", "b"] {
        let m = enc.try_encode(&w.to_string());
        let d = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dec.decode(m)));
        assert_eq!(d.ok(), Some(w.to_string()));
    }
}
