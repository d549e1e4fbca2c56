//! Scratch directories for on-disk storage; removed when dropped.
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

static NEXT: AtomicU64 = AtomicU64::new(0);

pub struct Scratch {
    dir: PathBuf,
}

fn root() -> PathBuf {
    // prefer memory backed storage; never anything but a directory we created
    let shm = Path::new("/dev/shm");
    let base = if shm.is_dir() {
        shm.to_path_buf()
    } else {
        std::env::temp_dir()
    };
    base.join(format!("vp-scratch-{}", std::process::id()))
}

impl Scratch {
    pub fn new() -> Self {
        let n = NEXT.fetch_add(1, Ordering::Relaxed);
        let mut dir = root().join(format!("s{}", n));
        if std::fs::create_dir_all(&dir).is_err() {
            dir = std::env::temp_dir()
                .join(format!("vp-scratch-{}", std::process::id()))
                .join(format!("s{}", n));
            std::fs::create_dir_all(&dir).expect("cannot create scratch directory");
        }
        Scratch { dir }
    }
    pub fn path(&self, name: &str) -> String {
        self.dir.join(name).to_string_lossy().into_owned()
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

/// remove what is left of this process' scratch space
pub fn cleanup() {
    let _ = std::fs::remove_dir_all(root());
    let _ = std::fs::remove_dir_all(
        std::env::temp_dir().join(format!("vp-scratch-{}", std::process::id())),
    );
}

fn listing(dir: &str) -> Option<Vec<(String, u64)>> {
    let mut v = vec![];
    for e in std::fs::read_dir(dir).ok()? {
        let e = e.ok()?;
        let name = e.file_name().to_string_lossy().into_owned();
        // the information log of RocksDB is not part of the data
        if name != "LOCK" && !name.starts_with("LOG") {
            v.push((name, e.metadata().ok()?.len()));
        }
    }
    v.sort();
    Some(v)
}

/// Copy the files of a (possibly open) database, as a kill of the process would leave them. The
/// database removes obsolete files in the background: copy again if anything changed meanwhile.
#[allow(dead_code)]
pub fn copy_dir(src: &str, dst: &str) {
    for attempt in 0..2000 {
        let _ = std::fs::remove_dir_all(dst);
        std::fs::create_dir_all(dst).expect("create dir");
        if let Some(before) = listing(src) {
            let ok = before
                .iter()
                .all(|(n, _)| std::fs::copy(Path::new(src).join(n), Path::new(dst).join(n)).is_ok());
            if ok && listing(src).as_ref() == Some(&before) && listing(dst) == Some(before) {
                return;
            }
        }
        std::thread::sleep(std::time::Duration::from_millis(1 + attempt / 50));
    }
    panic!("HARNESS: files did not come to rest");
}
