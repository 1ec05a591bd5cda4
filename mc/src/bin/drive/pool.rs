//! Runs the generator in worker processes with memory and time limits, so that
//! a generator that loops, eats memory or aborts is an observation and not the
//! end of the check.
use crate::pipeline::{par_with, JOBS};
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const LIMIT: Duration = Duration::from_secs(20);
const MEM_KB: u64 = 3 << 20;

/// What the worker does with a text.
#[derive(Clone, Debug)]
pub enum Mode {
    /// generate with a derive line, answer the output
    Gen(Option<String>),
    /// `Ast::new`, then `generate`; answer only how each ended
    Total,
    /// generate; answer a hash of the output
    Hash,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(String),
    Err(String),
    Panic(String),
    /// killed the process, did not return, or exceeded memory
    Died(String),
}

fn get(r: &mut impl Read) -> std::io::Result<Vec<u8>> {
    let mut l = [0u8; 4];
    r.read_exact(&mut l)?;
    let mut v = vec![0; u32::from_le_bytes(l) as usize];
    r.read_exact(&mut v)?;
    Ok(v)
}
fn put(w: &mut impl Write, b: &[u8]) -> std::io::Result<()> {
    w.write_all(&(b.len() as u32).to_le_bytes())?;
    w.write_all(b)?;
    w.flush()
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}

pub fn hash(s: &str) -> String {
    format!("{}:{:016x}", s.len(), mcrt::util::fnv(s.as_bytes()))
}

fn work(mode: &Mode, text: &str) -> Out {
    let gen = |d: Option<&str>| {
        let g = fastxdr::Generator::default();
        let g = match d {
            Some(d) => g.with_derive(d),
            None => g,
        };
        g.generate(text).map_err(|e| e.to_string())
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match mode {
        Mode::Gen(d) => gen(d.as_deref()),
        Mode::Hash => gen(None).map(|s| hash(&s)),
        Mode::Total => {
            let a = fastxdr::ast::Ast::new(text).map(|_| ()).map_err(|e| e.to_string());
            let g = gen(None);
            match (a, g) {
                (Ok(()), Ok(_)) => Ok("ok ok".into()),
                (Ok(()), Err(_)) => Ok("ok err".into()),
                (Err(_), Err(_)) => Ok("err err".into()),
                (Err(_), Ok(_)) => Ok("err ok".into()),
            }
        }
    }));
    match r {
        Ok(Ok(s)) => Out::Ok(s),
        Ok(Err(e)) => Out::Err(e),
        Err(p) => Out::Panic(panic_text(p)),
    }
}

/// Entry point of the worker process.
pub fn worker(a: &[String]) -> ! {
    let mode = match a[0].as_str() {
        "gen" => Mode::Gen(None),
        "derive" => Mode::Gen(Some(a[1].clone())),
        "total" => Mode::Total,
        _ => Mode::Hash,
    };
    std::panic::set_hook(Box::new(|_| {}));
    // the stack an application's main thread has
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let (mut i, mut o) = (std::io::stdin(), std::io::stdout());
            while let Ok(t) = get(&mut i) {
                let t = String::from_utf8(t).unwrap();
                let (k, s) = match work(&mode, &t) {
                    Out::Ok(s) => (0u8, s),
                    Out::Err(s) => (1, s),
                    Out::Panic(s) => (2, s),
                    Out::Died(_) => unreachable!(),
                };
                let mut b = vec![k];
                b.extend(s.as_bytes());
                if put(&mut o, &b).is_err() {
                    break;
                }
            }
        })
        .unwrap()
        .join()
        .unwrap();
    std::process::exit(0)
}

struct Worker {
    child: Arc<Mutex<Child>>,
    since: Arc<Mutex<Option<Instant>>>,
    timed_out: Arc<Mutex<bool>>,
    to: std::process::ChildStdin,
    from: std::process::ChildStdout,
    alive: Arc<Mutex<bool>>,
}

impl Worker {
    fn new(mode: &Mode) -> Worker {
        let me = std::env::current_exe().unwrap();
        let mut c = Command::new("/bin/sh");
        c.arg("-c").arg(format!("ulimit -v {}; exec \"$0\" \"$@\"", MEM_KB)).arg(me).arg("worker");
        match mode {
            Mode::Gen(None) => c.arg("gen"),
            Mode::Gen(Some(d)) => c.arg("derive").arg(d),
            Mode::Total => c.arg("total"),
            Mode::Hash => c.arg("hash"),
        };
        let mut ch = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("worker");
        let to = ch.stdin.take().unwrap();
        let from = ch.stdout.take().unwrap();
        let w = Worker {
            child: Arc::new(Mutex::new(ch)),
            since: Arc::new(Mutex::new(None)),
            timed_out: Arc::new(Mutex::new(false)),
            alive: Arc::new(Mutex::new(true)),
            to,
            from,
        };
        let (child, since, to, alive) = (w.child.clone(), w.since.clone(), w.timed_out.clone(), w.alive.clone());
        std::thread::spawn(move || {
            while *alive.lock().unwrap() {
                std::thread::sleep(Duration::from_millis(100));
                let late = since.lock().unwrap().map_or(false, |t| t.elapsed() > LIMIT);
                if late {
                    *to.lock().unwrap() = true;
                    let _ = child.lock().unwrap().kill();
                    break;
                }
            }
        });
        w
    }
    fn ask(&mut self, text: &str) -> Option<Out> {
        *self.since.lock().unwrap() = Some(Instant::now());
        let r = put(&mut self.to, text.as_bytes()).and_then(|_| get(&mut self.from));
        *self.since.lock().unwrap() = None;
        let b = r.ok()?;
        let s = String::from_utf8_lossy(&b[1..]).to_string();
        Some(match b[0] {
            0 => Out::Ok(s),
            1 => Out::Err(s),
            _ => Out::Panic(s),
        })
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        *self.alive.lock().unwrap() = false;
        let mut c = self.child.lock().unwrap();
        let _ = c.kill();
        let _ = c.wait();
    }
}

/// One outcome per text, in order.
pub fn run(texts: &[String], mode: &Mode) -> Vec<Out> {
    par_with(
        texts.len(),
        JOBS,
        || None::<Worker>,
        |w, i| {
            let x = w.get_or_insert_with(|| Worker::new(mode));
            match x.ask(&texts[i]) {
                Some(o) => o,
                None => {
                    let st = x.child.lock().unwrap().wait();
                    let how = if *x.timed_out.lock().unwrap() {
                        format!("did not return within {} s", LIMIT.as_secs())
                    } else {
                        format!("process ended by {}", st.map(|s| s.to_string()).unwrap_or_default())
                    };
                    *w = None;
                    Out::Died(how)
                }
            }
        },
    )
}
