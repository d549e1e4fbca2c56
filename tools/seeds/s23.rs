//! property: C24
//! needs: a type with a cached field of a given size followed by a cached field without one
//! breaks: the second field gets the size of the first instead of the documented default
//! feat: unicache macros
/*EDIT omnipaxos_macros/src/lib.rs
            let mut cache_sizes = Vec::new();
===
            let mut cache_sizes = Vec::new();
            let mut cache_size = None;
*/
/*EDIT omnipaxos_macros/src/lib.rs
                    let mut cache_size = None;
                    let mut cache_type = None;
===
                    let mut cache_type = None;
*/
/*EDIT omnipaxos_macros/src/lib.rs
                    cache_sizes.push(cache_size);
===
                    cache_sizes.push(cache_size.clone());
*/
use omnipaxos::{macros::UniCacheEntry, storage::Entry, unicache::*};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, UniCacheEntry)]
pub struct E {
    #[unicache(encoding(u8), size(2))]
    a: String,
    #[unicache(encoding(u8))]
    b: u32,
}

fn main() {
    let mut enc = ECache::new();
    let mut dec = ECache::new();
    for i in 0..100u32 {
        let e = E { a: "x".into(), b: i };
        let m = enc.try_encode(&e);
        assert_eq!(dec.decode(m), e);
    }
    let (_, b) = enc.try_encode(&E { a: "x".into(), b: 0 });
    assert!(matches!(b, MaybeEncoded::Encoded(_)), "a cache of the default size forgot the first of 100 values");
}
