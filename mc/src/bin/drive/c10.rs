//! C10: the runtime of the generated module, exhaustively within bounds.
use crate::pipeline::*;
use crate::pool;
use mcrt::report::*;
use std::process::Command;
use std::time::Duration;

const SPEC: &str = "typedef unsigned int eu; typedef unsigned hyper eh; typedef opaque eo<>; typedef string es<>;
enum ee { EA = 5, EB = 9 };
struct st { unsigned int a; opaque b<>; opaque c[3]; bool d; };
struct st2 { unsigned int x; unsigned hyper y; };
union un switch (unsigned int d) { case 1: st2 a; case 2: void; default: eu z; };
";
const DERIVE: &str = "#[derive(Debug, PartialEq, Clone)]";

fn source(r: &mut Report) -> Option<String> {
    match pool::run(&[SPEC.to_string()], &pool::Mode::Gen(Some(DERIVE.into()))).remove(0) {
        pool::Out::Ok(s) => Some(s),
        x => {
            r.violate("generate", format!("no runtime: generate gave {:?}", x), format!("mode: c10\n\n{}", SPEC));
            None
        }
    }
}

pub fn check(tier: &str) -> Report {
    let mut r = Report::new("C10", tier);
    r.rule = "state = distinct call (reader, buffer contents, length, maximum) made on the runtime of a module generated from the current tree, transition = one step of an enumeration (length, remaining bytes, maximum, word); every call is compared with the contract".into();
    r.assumptions = vec![
        "an Error is demanded exactly when the value, its padding or the maximum does not fit; which Error is not".into(),
        "rustc and the bytes crate are trusted".into(),
    ];
    let dir = build_dir().join("gen").join(format!("C10-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let text = match source(&mut r) {
        Some(t) => t,
        None => return r,
    };
    std::fs::write(dir.join("s0.rs"), &text).unwrap();
    std::fs::write(dir.join("c10.rs"), include_str!("../../../templates/c10.rs")).unwrap();
    let exe = dir.join("c10");
    if let Err(e) = rustc(&dir.join("c10.rs"), &exe, Emit::Exe { opt: 3 }, "2021", false) {
        let e: String = e.lines().take(20).collect::<Vec<_>>().join("\n");
        r.violate("compile", format!("the runtime does not offer the documented readers and sizes:\n{}", e), format!("mode: c10\n\n{}", e));
        let _ = std::fs::remove_dir_all(&dir);
        return r;
    }
    let mut c = Command::new(&exe);
    c.arg(tier);
    let limit = Duration::from_secs(if tier == "thorough" { 3000 } else { 600 });
    match wait(c, limit) {
        None => r.violate("timeout", "a reader did not return", "mode: c10\n"),
        Some((st, out, err)) => {
            let mut done = false;
            for l in out.lines() {
                let f: Vec<&str> = l.split('\t').collect();
                match f[0] {
                    "VIOL" => r.violate(f[1], format!("{}: input {}: {}", f[1], f[2], f[3]), format!("mode: c10\ninput: {}\nwhat: {}\n", f[2], f[3])),
                    "SAMPLE" => r.samples.push(f[1].into()),
                    "STAT" => {
                        let (k, v) = f[1].split_once('=').unwrap();
                        let v: u64 = v.parse().unwrap();
                        match k {
                            "executions" => r.states = v,
                            "transitions" => r.transitions = v,
                            "oks" => {
                                r.traces += v;
                                r.add("calls_that_must_succeed", v)
                            }
                            "errs" => {
                                r.traces += v;
                                r.add("calls_that_must_fail", v)
                            }
                            k => r.add(k, v),
                        }
                    }
                    "DONE" => done = true,
                    _ => {}
                }
            }
            if !done {
                r.violate("died", format!("a reader ended the process: {} {}", st, err.lines().next().unwrap_or("")), "mode: c10\n");
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    r
}
