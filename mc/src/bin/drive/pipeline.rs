//! Generate, compile and run: specification text -> generated module -> shard
//! executables -> explored behaviours.
use mcrt::report::*;
use mcrt::sem::*;
use mcrt::spec::Spec;
use mcrt::util::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const JOBS: usize = 8;

#[derive(Clone, Debug, PartialEq)]
pub enum Gen {
    Ok(String),
    Err(String),
    Panic(String),
}

/// Runs `f` for 0..n on JOBS threads, results in order.
pub fn par<T: Send>(n: usize, f: impl Fn(usize) -> T + Sync) -> Vec<T> {
    par_with(n, JOBS, || (), |_, i| f(i))
}

/// The same with state per thread.
pub fn par_with<S, T: Send>(n: usize, jobs: usize, init: impl Fn() -> S + Sync, f: impl Fn(&mut S, usize) -> T + Sync) -> Vec<T> {
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<Option<T>>> = Mutex::new((0..n).map(|_| None).collect());
    std::thread::scope(|s| {
        for _ in 0..jobs.min(n) {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || {
                    let mut st = init();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        let r = f(&mut st, i);
                        out.lock().unwrap()[i] = Some(r);
                    }
                })
                .unwrap();
        }
    });
    out.into_inner().unwrap().into_iter().map(|x| x.unwrap()).collect()
}

/// Generation of a whole set, in worker processes.
pub fn generate_all(specs: &[Spec], derive: Option<&str>) -> Vec<Gen> {
    let texts: Vec<String> = specs.iter().map(|s| s.text()).collect();
    crate::pool::run(&texts, &crate::pool::Mode::Gen(derive.map(|s| s.to_string())))
        .into_iter()
        .map(|o| match o {
            crate::pool::Out::Ok(s) => Gen::Ok(s),
            crate::pool::Out::Err(s) => Gen::Err(s),
            crate::pool::Out::Panic(s) => Gen::Panic(s),
            crate::pool::Out::Died(s) => Gen::Panic(s),
        })
        .collect()
}

fn sysroot_rustc() -> Command {
    // limits: a module the compiler cannot digest is an observation
    let mut c = Command::new("/bin/sh");
    c.arg("-c").arg("ulimit -v 6000000; exec timeout -s KILL 240 rustc \"$@\"").arg("sh");
    c.env_remove("RUSTFLAGS").env_remove("CARGO_TARGET_DIR");
    c
}

pub fn rlib(name: &str) -> PathBuf {
    // the library built by run.sh
    build_dir().join("target/release").join(format!("lib{}.rlib", name))
}

/// Path of the fastxdr rlib this driver was built against.
pub fn fastxdr_rlib() -> PathBuf {
    let d = build_dir().join("target/release/deps");
    let mut best: Option<(std::time::SystemTime, PathBuf)> = None;
    for e in std::fs::read_dir(&d).unwrap().flatten() {
        let n = e.file_name().to_string_lossy().to_string();
        if n.starts_with("libfastxdr-") && n.ends_with(".rlib") {
            let t = e.metadata().unwrap().modified().unwrap();
            if best.as_ref().map_or(true, |b| t > b.0) {
                best = Some((t, e.path()));
            }
        }
    }
    best.expect("libfastxdr rlib").1
}

#[derive(Clone, Copy, PartialEq)]
pub enum Emit {
    Exe { opt: u32 },
    Metadata,
}

pub fn rustc(src: &Path, out: &Path, emit: Emit, edition: &str, with_mc: bool) -> Result<(), String> {
    let mut c = sysroot_rustc();
    c.arg("--edition").arg(edition).arg("-A").arg("warnings").arg("-C").arg("debuginfo=0").arg("--color").arg("never");
    c.arg("-L").arg(format!("dependency={}", build_dir().join("target/release/deps").display()));
    c.arg("--extern").arg(format!("fastxdr={}", fastxdr_rlib().display()));
    if with_mc {
        c.arg("--extern").arg(format!("mcrt={}", rlib("mcrt").display()));
    }
    match emit {
        Emit::Exe { opt } => {
            c.args(["--crate-type", "bin", "-C", "debug-assertions=on", "-C", "overflow-checks=on"]);
            c.arg("-C").arg(format!("opt-level={}", opt));
        }
        Emit::Metadata => {
            c.args(["--crate-type", "lib", "--emit=metadata"]);
        }
    }
    c.arg("-o").arg(out).arg(src).stdin(Stdio::null());
    let o = c.output().map_err(|e| format!("rustc: {}", e))?;
    if o.status.success() {
        Ok(())
    } else {
        let s = String::from_utf8_lossy(&o.stderr).to_string();
        Err(if s.contains("error") { s } else { format!("error: rustc did not finish ({}): {}", o.status, s) })
    }
}

/// Which units do the compiler's errors belong to? Files are named s<i>.rs and b<i>.rs.
pub fn attribute(stderr: &str) -> BTreeMap<usize, String> {
    let mut o: BTreeMap<usize, String> = BTreeMap::new();
    let mut blocks: Vec<String> = vec![];
    for l in stderr.lines() {
        if l.starts_with("error") || l.starts_with("warning") {
            blocks.push(String::new());
        }
        if let Some(b) = blocks.last_mut() {
            b.push_str(l);
            b.push('\n');
        }
    }
    for b in blocks.iter().filter(|b| b.starts_with("error")) {
        for w in b.split(|c: char| c.is_whitespace()) {
            let f = w.rsplit('/').next().unwrap_or("");
            let f = match f.split_once(".rs:") {
                Some((f, _)) => f,
                None => continue,
            };
            if f.len() > 1 && (f.starts_with('s') || f.starts_with('b')) {
                if let Ok(i) = f[1..].parse::<usize>() {
                    o.entry(i).or_insert_with(|| b.clone());
                    break;
                }
            }
        }
    }
    o
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    /// the generated module does not compile on its own
    Module(String),
    /// it does, but not with the declarations the specification implies
    Shape(String),
}

pub struct Compiled {
    /// shard source file -> units in it
    pub shards: Vec<(PathBuf, Vec<usize>)>,
    pub failed: BTreeMap<usize, Fail>,
}

/// Compiles the units (files s<i>.rs, b<i>.rs already in `dir`) into `nshards`
/// crates, taking out the units that do not compile.
pub fn compile(
    dir: &Path,
    units: &[(usize, usize)],
    nshards: usize,
    emit: Emit,
    edition: &str,
    main: &(dyn Fn(&[usize]) -> String + Sync),
) -> Compiled {
    // largest first onto the least loaded shard
    let mut u = units.to_vec();
    u.sort_by_key(|x| (std::cmp::Reverse(x.1), x.0));
    let mut bins: Vec<(usize, Vec<usize>)> = vec![(0, vec![]); nshards.min(units.len()).max(1)];
    for (i, w) in u {
        let b = bins.iter_mut().min_by_key(|b| b.0).unwrap();
        b.0 += w + 2000;
        b.1.push(i);
    }
    let failed: Mutex<BTreeMap<usize, String>> = Mutex::new(BTreeMap::new());
    let shards = par(bins.len(), |k| {
        let mut list = bins[k].1.clone();
        list.sort();
        let src = dir.join(format!("shard{}.rs", k));
        let out = match emit {
            Emit::Exe { .. } => dir.join(format!("shard{}", k)),
            Emit::Metadata => dir.join(format!("libshard{}.rmeta", k)),
        };
        let mut rounds = 0;
        loop {
            if list.is_empty() {
                return (out, list);
            }
            std::fs::write(&src, main(&list)).unwrap();
            let e = match rustc(&src, &out, emit, edition, true) {
                Ok(()) => return (out, list),
                Err(e) => e,
            };
            rounds += 1;
            let mut bad = attribute(&e);
            bad.retain(|i, _| list.contains(i));
            if bad.is_empty() || rounds > 8 {
                // one at a time
                for i in list.clone() {
                    let s1 = dir.join(format!("one{}.rs", i));
                    std::fs::write(&s1, main(&[i])).unwrap();
                    if let Err(e) = rustc(&s1, &dir.join(format!("one{}.out", i)), emit, edition, true) {
                        bad.insert(i, e);
                    }
                    let _ = std::fs::remove_file(dir.join(format!("one{}.out", i)));
                }
                if bad.is_empty() {
                    eprintln!("shard {} does not compile but each unit does:\n{}", k, e);
                    std::process::exit(2);
                }
            }
            list.retain(|i| !bad.contains_key(i));
            failed.lock().unwrap().extend(bad);
        }
    });
    let failed = failed.into_inner().unwrap();
    // does the module compile alone?
    let keys: Vec<usize> = failed.keys().copied().collect();
    let alone = par(keys.len().min(64), |k| {
        let i = keys[k];
        let s1 = dir.join(format!("alone{}.rs", i));
        std::fs::write(&s1, format!("include!(\"s{}.rs\");\n", i)).unwrap();
        rustc(&s1, &dir.join(format!("libalone{}.rmeta", i)), Emit::Metadata, edition, false).err()
    });
    let mut fm = BTreeMap::new();
    for (k, (i, msg)) in failed.into_iter().enumerate() {
        let f = match alone.get(k) {
            Some(Some(m)) => Fail::Module(m.clone()),
            Some(None) => Fail::Shape(msg),
            None => {
                // beyond the classified ones: same class as the last classified
                match alone.last() {
                    Some(Some(_)) => Fail::Module(msg),
                    _ => Fail::Shape(msg),
                }
            }
        };
        fm.insert(i, f);
    }
    Compiled { shards: shards.into_iter().filter(|s| !s.1.is_empty()).collect(), failed: fm }
}

pub fn ops_main(units: &[usize]) -> String {
    let mut s = String::from("#[global_allocator]\nstatic ALLOC: mcrt::rt::Counting = mcrt::rt::Counting;\n");
    for i in units {
        s.push_str(&format!("mod s{i} {{ include!(\"s{i}.rs\"); include!(\"b{i}.rs\"); }}\n", i = i));
    }
    s.push_str("fn main() {\nlet v: Vec<Vec<mcrt::rt::TypeOps>> = vec![");
    for i in units {
        s.push_str(&format!("s{}::ops(), ", i));
    }
    s.push_str("];\nlet r: Vec<&[mcrt::rt::TypeOps]> = v.iter().map(|x| &x[..]).collect();\nmcrt::rt::shard_main(&r);\n}\n");
    s
}

pub fn shape_main(units: &[usize]) -> String {
    let mut s = String::new();
    for i in units {
        s.push_str(&format!("pub mod s{i} {{ include!(\"s{i}.rs\"); include!(\"b{i}.rs\"); }}\n", i = i));
    }
    s
}

#[derive(Debug, Clone)]
pub struct Viol {
    pub spec: usize,
    pub def: usize,
    pub kind: String,
    pub input: String,
    pub detail: String,
}

#[derive(Default)]
pub struct RunOut {
    pub viols: Vec<Viol>,
    pub stats: BTreeMap<String, u64>,
    pub min_levels: u64,
    pub types: BTreeSet<(usize, usize)>,
    pub skipped: Vec<String>,
    pub samples: Vec<String>,
    pub errors: Vec<String>,
    pub timeouts: u64,
    /// milliseconds, spec, def
    pub times: Vec<(u64, usize, usize)>,
}

pub enum Crash {
    Violation(String),
    Skip,
}

/// Runs one executable with a limit; None on timeout.
pub fn wait(mut c: Command, limit: Duration) -> Option<(std::process::ExitStatus, String, String)> {
    use std::io::Read;
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut p = c.spawn().expect("spawn");
    let mut so = p.stdout.take().unwrap();
    let mut se = p.stderr.take().unwrap();
    let h1 = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = so.read_to_end(&mut v);
        String::from_utf8_lossy(&v).to_string()
    });
    let h2 = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = se.read_to_end(&mut v);
        String::from_utf8_lossy(&v).to_string()
    });
    let t = Instant::now();
    loop {
        match p.try_wait().unwrap() {
            Some(s) => return Some((s, h1.join().unwrap(), h2.join().unwrap())),
            None => {
                if t.elapsed() > limit {
                    let _ = p.kill();
                    let _ = p.wait();
                    return None;
                }
                std::thread::sleep(Duration::from_millis(5));
            }
        }
    }
}

pub fn run_shards(
    shards: &[(PathBuf, Vec<usize>)],
    prop: &str,
    tier: &str,
    set: &str,
    limit: Duration,
    on_crash: &(dyn Fn(u32, i32, &str) -> Crash + Sync),
) -> RunOut {
    let outs = par(shards.len(), |k| {
        let exe = &shards[k].0;
        let mut skip: Vec<(usize, usize)> = vec![];
        let mut ro = RunOut { min_levels: 99, ..RunOut::default() };
        let t = Instant::now();
        loop {
            let out = exe.with_extension(format!("out{}", skip.len()));
            let crumb = exe.with_extension(format!("crumb{}", skip.len()));
            let _ = std::fs::remove_file(&crumb);
            let mut c = Command::new(exe);
            c.args(["run", prop, tier, set]).arg(&out).arg(&crumb);
            c.arg(skip.iter().map(|x| format!("{}:{}", x.0, x.1)).collect::<Vec<_>>().join(","));
            let r = wait(c, limit.checked_sub(t.elapsed()).unwrap_or(Duration::from_secs(1)));
            let text = std::fs::read_to_string(&out).unwrap_or_default();
            let done = text.lines().any(|l| l == "DONE");
            let mut part = RunOut { min_levels: 99, ..RunOut::default() };
            for l in text.lines() {
                let f: Vec<&str> = l.split('\t').collect();
                match f[0] {
                    "VIOL" if f.len() == 6 => part.viols.push(Viol {
                        spec: f[1].parse().unwrap(),
                        def: f[2].parse().unwrap(),
                        kind: unesc(f[3]),
                        input: f[4].to_string(),
                        detail: unesc(f[5]),
                    }),
                    "TYPE" if f.len() == 5 => {
                        part.times.push((f[4].parse().unwrap(), f[1].parse().unwrap(), f[2].parse().unwrap()));
                        part.types.insert((f[1].parse().unwrap(), f[2].parse().unwrap()));
                    }
                    "SAMPLE" if f.len() == 5 => {
                        part.samples.push(format!("[{}] type {} input {} = {}", unesc(f[1]), f[2], f[3], unesc(f[4])))
                    }
                    "STAT" => {
                        for kv in &f[1..] {
                            let (a, b) = kv.split_once('=').unwrap();
                            let b: u64 = b.parse().unwrap();
                            if a == "levels" {
                                part.min_levels = part.min_levels.min(b);
                            } else {
                                *part.stats.entry(a.into()).or_insert(0) += b;
                            }
                        }
                    }
                    _ => {}
                }
            }
            let merge = |ro: &mut RunOut, part: RunOut| {
                ro.viols.extend(part.viols);
                ro.types.extend(part.types);
                ro.times.extend(part.times);
                ro.samples.extend(part.samples);
                ro.min_levels = ro.min_levels.min(part.min_levels);
                for (a, b) in part.stats {
                    *ro.stats.entry(a).or_insert(0) += b;
                }
            };
            match r {
                None => {
                    ro.timeouts += 1;
                    merge(&mut ro, part);
                    return ro;
                }
                Some((st, _, _)) if st.success() && done => {
                    merge(&mut ro, part);
                    return ro;
                }
                Some((st, _, err)) => {
                    use std::os::unix::process::ExitStatusExt;
                    if st.code() == Some(70) || st.code() == Some(101) {
                        ro.errors.push(format!("{} {}: {}", exe.display(), st, err));
                        return ro;
                    }
                    let cr = match mcrt::rt::read_crumb(crumb.to_str().unwrap()) {
                        Some(c) => c,
                        None => {
                            ro.errors.push(format!("{} {}: {}", exe.display(), st, err));
                            return ro;
                        }
                    };
                    let sig = if st.code() == Some(71) { -1 } else { st.signal().unwrap_or(0) };
                    if sig == 9 || sig == 15 {
                        ro.errors.push(format!("{} was killed: {}", exe.display(), st));
                        return ro;
                    }
                    let how = if sig == -1 {
                        "did not return within 30 s".to_string()
                    } else {
                        format!("process ended by {} {}", st, err.lines().next().unwrap_or("").trim())
                    };
                    match on_crash(cr.2, sig, &err) {
                        Crash::Violation(kind) => {
                            part.viols.push(Viol {
                                spec: cr.0,
                                def: cr.1,
                                kind,
                                input: if cr.4 { String::new() } else { cr.3.iter().map(|b| format!("{:02x}", b)).collect() },
                                detail: how,
                            });
                            merge(&mut ro, part);
                            return ro;
                        }
                        Crash::Skip => {
                            ro.skipped.push(format!("spec {} def {}: {}", cr.0, cr.1, how));
                            skip.push((cr.0, cr.1));
                            if skip.len() > 8 {
                                merge(&mut ro, part);
                                return ro;
                            }
                        }
                    }
                }
            }
        }
    });
    let mut all = RunOut { min_levels: 99, ..RunOut::default() };
    for o in outs {
        all.viols.extend(o.viols);
        all.types.extend(o.types);
        all.times.extend(o.times);
        all.skipped.extend(o.skipped);
        all.samples.extend(o.samples);
        all.errors.extend(o.errors);
        all.timeouts += o.timeouts;
        all.min_levels = all.min_levels.min(o.min_levels);
        for (a, b) in o.stats {
            *all.stats.entry(a).or_insert(0) += b;
        }
    }
    all.viols.sort_by_key(|v| (v.spec, v.def));
    all
}

/// Generated modules and bridges on disk, ready to compile.
pub struct Prepared {
    pub dir: PathBuf,
    pub specs: Vec<Spec>,
    pub sems: Vec<Sem>,
    pub gens: Vec<Gen>,
}

pub fn prepare(name: &str, set: &str, tier: &str, derive: Option<&'static str>, bridge: &(dyn Fn(usize, &Sem) -> String + Sync), only: Option<usize>) -> Prepared {
    let dir = build_dir().join("gen").join(format!("{}-{}", name, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let specs = mcrt::universe::set(set, tier);
    let sems: Vec<Sem> = par(specs.len(), |i| resolve(&specs[i]));
    let gens = match only {
        None => generate_all(&specs, derive),
        Some(k) => {
            let mut g = vec![Gen::Err("not selected".into()); specs.len()];
            g[k] = generate_all(&specs[k..k + 1], derive).remove(0);
            g
        }
    };
    par(specs.len(), |i| {
        if let Gen::Ok(t) = &gens[i] {
            std::fs::write(dir.join(format!("s{}.rs", i)), t).unwrap();
            std::fs::write(dir.join(format!("b{}.rs", i)), bridge(i, &sems[i])).unwrap();
        }
    });
    Prepared { dir, specs, sems, gens }
}

impl Prepared {
    pub fn units(&self) -> Vec<(usize, usize)> {
        self.gens
            .iter()
            .enumerate()
            .filter_map(|(i, g)| match g {
                Gen::Ok(t) => Some((i, t.len().saturating_sub(12_000))),
                _ => None,
            })
            .collect()
    }
}
impl Drop for Prepared {
    fn drop(&mut self) {
        if std::env::var("MC_KEEP").is_err() {
            let _ = std::fs::remove_dir_all(&self.dir);
        }
    }
}
