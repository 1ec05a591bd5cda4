//! Explores the library API (`Ast`) directly. The exploration runs in a child
//! process, so that a parser that hangs or takes the process down is found and
//! attributed, not the end of the check.
mod c12;
mod c13;
mod watch;

use mcrt::report::*;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn run_one(file: &std::path::Path) -> Option<String> {
    let me = std::env::current_exe().unwrap();
    let mut c = Command::new("/bin/sh")
        .arg("-c")
        .arg("ulimit -v 3000000; exec \"$0\" \"$@\"")
        .arg(me)
        .arg("one")
        .arg(file)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let t = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(s)) if s.success() => return None,
            Ok(Some(s)) => return Some(format!("the process ended by {}", s)),
            _ => {}
        }
        if t.elapsed() > Duration::from_secs(40) {
            let _ = c.kill();
            let _ = c.wait();
            return Some("did not return within 40 s".into());
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let tier = a.get(2).map(|s| s.as_str()).unwrap_or("quick").to_string();
    match a[1].as_str() {
        "one" => {
            std::panic::set_hook(Box::new(|_| {}));
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let _ = std::panic::catch_unwind(|| {
                let _ = fastxdr::ast::Ast::new(&t);
            });
            let _ = std::panic::catch_unwind(|| {
                let _ = fastxdr::Generator::default().generate(&t);
            });
        }
        "inner" => {
            std::panic::set_hook(Box::new(|i| {
                if std::thread::current().name() == Some("main") {
                    eprintln!("{}", i);
                }
            }));
            let tier = a.get(3).map(|s| s.as_str()).unwrap_or("quick");
            watch::start();
            let r = match a[2].as_str() {
                "C12" => c12::check(tier),
                _ => c13::check(tier),
            };
            std::process::exit(r.finish());
        }
        p => {
            let me = std::env::current_exe().unwrap();
            watch::clear();
            let s = Command::new("/bin/sh")
                .arg("-c")
                .arg("ulimit -v 24000000; exec \"$0\" \"$@\"")
                .arg(me)
                .args(["inner", p, &tier])
                .env("MC_CRUMBS", watch::dir())
                .status()
                .expect("child");
            if let Some(c @ (0 | 1)) = s.code() {
                watch::clear();
                std::process::exit(c);
            }
            // find the text that does it
            let mut r = Report::new(p, &tier);
            for f in watch::crumbs() {
                if let Some(how) = run_one(&f) {
                    let t = std::fs::read_to_string(&f).unwrap_or_default();
                    r.violate("abort", format!("the library does not return on a specification: {}", how), format!("mode: text\n\nspecification text:\n{}", t));
                }
            }
            watch::clear();
            if r.violations.is_empty() {
                eprintln!("the exploration ended by {} (signal {:?}) and no text reproduces it", s, s.signal());
                std::process::exit(2);
            }
            r.states = 1;
            r.transitions = 1;
            r.traces = 1;
            std::process::exit(r.finish());
        }
    }
}
