//! Remembers, outside the process, what each thread is working on.
use std::cell::RefCell;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

const SLOTS: usize = 64;
const LIMIT_MS: u64 = 30_000;
static SINCE: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static NEXT: AtomicUsize = AtomicUsize::new(0);
static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();

pub fn dir() -> PathBuf {
    match std::env::var("MC_CRUMBS") {
        Ok(d) => d.into(),
        Err(_) => mcrt::report::build_dir().join(format!("crumbs-{}", std::process::id())),
    }
}
pub fn clear() {
    let _ = std::fs::remove_dir_all(dir());
}
/// One file per thread that was at work, holding exactly the text.
pub fn crumbs() -> Vec<PathBuf> {
    let mut v = vec![];
    for e in std::fs::read_dir(dir()).into_iter().flatten().flatten() {
        let b = std::fs::read(e.path()).unwrap_or_default();
        if b.len() < 8 {
            continue;
        }
        let n = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
        if n == 0 || b.len() < 8 + n {
            continue;
        }
        let f = e.path().with_extension("x");
        if std::fs::write(&f, &b[8..8 + n]).is_ok() {
            v.push(f);
        }
    }
    v.sort();
    v
}
fn now() -> u64 {
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}
pub fn start() {
    let _ = std::fs::create_dir_all(dir());
    now();
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let n = now();
        for s in SINCE.iter() {
            let t = s.load(Ordering::Relaxed);
            if t != 0 && n > t + LIMIT_MS {
                std::process::exit(3);
            }
        }
    });
}
thread_local! {
    static MINE: RefCell<Option<(usize, File)>> = const { RefCell::new(None) };
}
/// Runs `f` on a text; Err is the panic message.
pub fn guarded<R>(text: &str, f: impl FnOnce(&str) -> R) -> Result<R, String> {
    let slot = MINE.with(|m| {
        let mut m = m.borrow_mut();
        let (s, file) = m.get_or_insert_with(|| {
            let s = NEXT.fetch_add(1, Ordering::Relaxed);
            (s % SLOTS, File::create(dir().join(format!("{}", s))).expect("crumb file"))
        });
        let mut b = Vec::with_capacity(text.len() + 8);
        b.extend((text.len() as u64).to_le_bytes());
        b.extend(text.as_bytes());
        let _ = file.write_at(&b, 0);
        *s
    });
    SINCE[slot].store(now(), Ordering::Relaxed);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(text)));
    SINCE[slot].store(0, Ordering::Relaxed);
    MINE.with(|m| {
        if let Some((_, file)) = m.borrow().as_ref() {
            let _ = file.write_at(&0u64.to_le_bytes(), 0);
        }
    });
    r.map_err(|p| p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())
}

/// Runs `f` for 0..n on all cores.
pub fn par<T: Send>(n: usize, f: impl Fn(usize) -> T + Sync) -> Vec<T> {
    let next = AtomicUsize::new(0);
    let out: std::sync::Mutex<Vec<(usize, T)>> = std::sync::Mutex::new(Vec::with_capacity(n));
    std::thread::scope(|s| {
        for _ in 0..8.min(n) {
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n {
                        break;
                    }
                    let r = f(i);
                    out.lock().unwrap().push((i, r));
                })
                .unwrap();
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}
