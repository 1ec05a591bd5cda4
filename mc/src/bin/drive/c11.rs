//! C11: generation is a pure function of the declarations.
use crate::pipeline::*;
use crate::pool::{self, Mode, Out};
use fastxdr::Generator;
use mcrt::items::{items, Item as RItem};
use mcrt::layout::*;
use mcrt::report::*;
use mcrt::spec::*;
use mcrt::util::fnv;
use std::collections::{BTreeMap, BTreeSet};
use std::process::Command;

fn sorted(text: &str) -> Result<Vec<RItem>, String> {
    let mut v = items(text)?;
    v.sort();
    Ok(v)
}

/// First difference between two item sets.
fn differ(a: &str, b: &str) -> Option<String> {
    let (x, y) = match (sorted(a), sorted(b)) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(e), _) | (_, Err(e)) => return Some(e),
    };
    if x == y {
        return None;
    }
    let cut = |i: &RItem| {
        let s = i.toks.join(" ");
        s.chars().take(300).collect::<String>()
    };
    let only_x = x.iter().find(|i| !y.contains(i));
    let only_y = y.iter().find(|i| !x.contains(i));
    Some(format!(
        "only in the reference: {} ; only in the variant: {}",
        only_x.map_or("-".into(), |i| cut(i)),
        only_y.map_or("-".into(), |i| cut(i))
    ))
}

struct Variant {
    spec: usize,
    how: String,
    text: String,
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for at in 0..n {
            let mut q = p.clone();
            q.insert(at, n - 1);
            out.push(q);
        }
    }
    out
}

fn orders(n: usize, full: usize) -> Vec<(String, Vec<usize>)> {
    let id: Vec<usize> = (0..n).collect();
    let mut v = vec![];
    if n <= full {
        for p in permutations(n) {
            if p != id {
                v.push((format!("declaration order {:?}", p), p));
            }
        }
        return v;
    }
    let mut r = id.clone();
    r.reverse();
    v.push(("declarations reversed".into(), r));
    for k in 1..n {
        if n > 40 && k % (n / 8) != 0 {
            continue;
        }
        let mut q = id.clone();
        q.rotate_left(k);
        v.push((format!("declarations rotated by {}", k), q));
    }
    if n <= 40 {
        for i in 0..n {
            for j in 0..n {
                if i == j || j == i + 1 {
                    continue;
                }
                let mut q = id.clone();
                let x = q.remove(i);
                q.insert(j, x);
                v.push((format!("declaration {} moved to {}", i, j), q));
            }
        }
    }
    v
}

pub fn check(tier: &str) -> Report {
    let th = tier == "thorough";
    let mut r = Report::new("C11", tier);
    r.rule = "state = distinct (specification text) or (call history, process configuration) on which the generator was run; transition = one inserted separator, one moved declaration or one call. Same text: byte identity; other layout or order: equality of the item sets".into();
    r.assumptions = vec![
        "comments are delimited by white space on both sides".into(),
        "hash seeds are enumerated by replacing getrandom(2) in the generator's process".into(),
    ];
    let mut kit = kitchen();
    for s in kit.iter_mut() {
        mcrt::universe::tame(s);
    }
    let nk = kit.len();
    let p9 = mcrt::universe::p9();
    kit.extend(p9.into_iter());
    kit.extend(mcrt::universe::p6());
    let named = kit.len();
    // everything else: whole-set reorderings only
    let wide = mcrt::universe::p10(th);
    let mut rest: Vec<Spec> = mcrt::universe::set("C08", "quick");
    if !th {
        rest = rest.into_iter().enumerate().filter(|(i, _)| i % 3 == 0).map(|x| x.1).collect();
    }
    kit.extend(rest);
    kit.extend(wide);
    let mut vars: Vec<Variant> = vec![];
    // ---- layouts
    let (mut gaps, mut pairs) = (0u64, 0u64);
    for (si, s) in kit.iter().enumerate().take(named) {
        let t = s.tokens();
        for style in 0..3 {
            let b = base(&t, style);
            vars.push(Variant { spec: si, how: format!("layout {}", style), text: join(&t, &b) });
            if t.len() > 150 && style != 1 {
                continue;
            }
            for g in 0..=t.len() {
                if t.len() > 150 && !th && g % 2 != si % 2 {
                    continue;
                }
                for tr in TRIVIA {
                    gaps += 1;
                    vars.push(Variant { spec: si, how: format!("{:?} before token {} of layout {}", tr, g, style), text: with(&t, &b, &[(g, tr)]) });
                }
                if g == t.len() {
                    for tr in [" // at the end", " //", "\n/* */", "\n// /*"] {
                        vars.push(Variant { spec: si, how: format!("{:?} at the end of layout {}", tr, style), text: with(&t, &b, &[(g, tr)]) });
                    }
                }
            }
        }
        // the same everywhere
        for tr in TRIVIA {
            let b = vec![tr.to_string(); t.len() + 1];
            vars.push(Variant { spec: si, how: format!("{:?} between all tokens", tr), text: join(&t, &b) });
            // alternating with another
            for tr2 in FEW {
                let b: Vec<String> = (0..=t.len()).map(|i| if i % 2 == 0 { tr.to_string() } else { tr2.to_string() }).collect();
                vars.push(Variant { spec: si, how: format!("{:?} and {:?} in turn between all tokens", tr, tr2), text: join(&t, &b) });
            }
        }
        // every pair of gaps
        if si < nk && (t.len() <= 75 || th) {
            let b = base(&t, 1);
            let near = if th { usize::MAX } else { 30 };
            for g in 0..=t.len() {
                for h in g + 1..=t.len() {
                    if h - g > near {
                        continue;
                    }
                    for x in FEW {
                        for y in FEW {
                            pairs += 1;
                            vars.push(Variant { spec: si, how: format!("{:?} before token {}, {:?} before token {}", x, g, y, h), text: with(&t, &b, &[(g, x), (h, y)]) });
                        }
                    }
                }
            }
        }
    }
    // ---- what comments hold
    let mut held = 0u64;
    for (si, s) in kit.iter().enumerate().take(nk) {
        let t = s.tokens();
        let b = base(&t, if si % 2 == 0 { 1 } else { 0 });
        for (k, tr) in contents_trivia(th).iter().enumerate() {
            for g in 0..=t.len() {
                let take = match tr.len() {
                    l if l > 20_000 => g == (k + 7 * si) % (t.len() + 1) && (th || si % 3 == 0),
                    l if l > 300 => g == (k + 7 * si) % (t.len() + 1),
                    _ => th || (g + k) % 2 == si % 2,
                };
                if take {
                    held += 1;
                    let shown: String = tr.chars().take(40).collect();
                    vars.push(Variant { spec: si, how: format!("{:?} ({} bytes) before token {}", shown, tr.len(), g), text: with(&t, &b, &[(g, tr)]) });
                }
            }
        }
    }
    r.add("comment_contents_insertions", held);
    gaps += held;
    r.add("single_gap_insertions", gaps);
    r.add("gap_pair_insertions", pairs);
    // ---- declaration orders
    let mut moved = 0u64;
    for (si, s) in kit.iter().enumerate() {
        let full = if th { 7 } else { 6 };
        let os = if si < named { orders(s.items.len(), full) } else { orders(s.items.len(), 3).into_iter().filter(|o| si < named || !o.0.contains("moved")).collect() };
        for (how, p) in os {
            moved += 1;
            let t: String = p.iter().map(|i| layout(&s.items[*i].tokens())).collect();
            vars.push(Variant { spec: si, how, text: t });
        }
    }
    r.add("declaration_orders", moved);
    let base_texts: Vec<String> = kit.iter().map(|s| s.text()).collect();
    let refs = pool::run(&base_texts, &Mode::Gen(None));
    let ref_hash: Vec<Option<String>> = refs
        .iter()
        .map(|o| match o {
            Out::Ok(s) => Some(pool::hash(s)),
            _ => None,
        })
        .collect();
    let texts: Vec<String> = vars.iter().map(|v| v.text.clone()).collect();
    let hashes = pool::run(&texts, &Mode::Hash);
    let mut again: Vec<usize> = vec![];
    let mut per_spec: BTreeMap<usize, u32> = BTreeMap::new();
    let fail = |r: &mut Report, per: &mut BTreeMap<usize, u32>, v: &Variant, d: String| {
        let n = per.entry(v.spec).or_insert(0);
        *n += 1;
        if *n > 2 {
            return;
        }
        r.violate(
            format!("{}|{}", kit[v.spec].label, v.how),
            format!("[{}] {}: {}", kit[v.spec].label, v.how, d),
            format!("mode: text\nhow: {}\n\nspecification text:\n{}\n---- reference layout and order:\n{}", v.how.replace('\n', "\\n"), v.text, base_texts[v.spec]),
        );
    };
    let mut outcomes = BTreeSet::new();
    for (i, v) in vars.iter().enumerate() {
        match (&ref_hash[v.spec], &hashes[i]) {
            (Some(a), Out::Ok(b)) if a == b => {
                outcomes.insert(fnv(b.as_bytes()));
            }
            (Some(_), Out::Ok(_)) => again.push(i),
            (Some(_), o) => {
                let d = format!("generate gave {:?}, the reference text is accepted", o);
                fail(&mut r, &mut per_spec, v, d)
            }
            (None, Out::Ok(_)) => fail(&mut r, &mut per_spec, v, "accepted, but the reference text is not".into()),
            (None, _) => {}
        }
    }
    r.add("texts_with_other_bytes_but_compared_by_items", again.len() as u64);
    for ch in again.chunks(2000) {
        let t: Vec<String> = ch.iter().map(|i| texts[*i].clone()).collect();
        let outs = pool::run(&t, &Mode::Gen(None));
        for (k, i) in ch.iter().enumerate() {
            let v = &vars[*i];
            if let (Out::Ok(a), Out::Ok(b)) = (&refs[v.spec], &outs[k]) {
                if let Some(d) = differ(a, b) {
                    fail(&mut r, &mut per_spec, v, d);
                }
            }
        }
    }
    r.states += vars.len() as u64;
    r.transitions += gaps + 2 * pairs + moved;
    r.traces += vars.len() as u64;
    for k in [0, vars.len() / 3, vars.len() - 1] {
        r.samples.push(format!("[{}] {}", kit[vars[k].spec].label, vars[k].how));
    }
    histories(&mut r, &kit[..named], th);
    repetitions(&mut r, &kit[..named], th);
    neighbours(&mut r, &kit[..named], th);
    processes(&mut r, &base_texts, th);
    threads(&mut r, &base_texts[..named]);
    r.add("distinct_outputs", outcomes.len() as u64);
    r
}

fn gen(g: &Generator, t: &str) -> String {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g.generate(t).map_err(|e| e.to_string()))) {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => format!("Err {}", e.len()),
        Err(_) => "panic".into(),
    }
}

/// All call sequences up to a length on two long-lived generators of one process.
fn histories(r: &mut Report, kit: &[Spec], th: bool) {
    let derive2 = "#[derive(Debug, PartialEq, Clone)]";
    let bad = "struct { nonsense".to_string();
    let pick = |l: &str| kit.iter().find(|s| s.label.contains(l)).map(|s| s.text()).unwrap();
    // same names declared differently, so that anything remembered shows
    let a = "struct s { t x; }; typedef opaque t<>; const N = 1; enum e { A = 1 };".to_string();
    let b = "struct s { t x; }; typedef unsigned int t; const N = 2; enum e { A = 2, B = 3 };".to_string();
    let texts: Vec<String> = vec![a, b, pick("K unions"), bad, "typedef missing x;".into(), pick("K generic chain")];
    // expectation: the first call of a fresh process
    let exp1 = pool::run(&texts, &Mode::Gen(None));
    let exp2 = pool::run(&texts, &Mode::Gen(Some(derive2.into())));
    let want = |o: &Out| match o {
        Out::Ok(s) => s.clone(),
        Out::Err(e) => format!("Err {}", e.len()),
        _ => "panic".into(),
    };
    let e1: Vec<String> = exp1.iter().map(want).collect();
    let e2: Vec<String> = exp2.iter().map(want).collect();
    let nt = texts.len();
    let depth = if th { 6 } else { 5 };
    let alpha = nt + 2; // all texts on generator 1, two of them on generator 2
    let n = alpha.pow(depth as u32);
    let bad: Vec<Option<(Vec<usize>, String)>> = par(n, |code| {
        let g1 = Generator::default();
        let g2 = Generator::default().with_derive(derive2);
        let mut c = code;
        let mut hist = vec![];
        for _ in 0..depth {
            let op = c % alpha;
            c /= alpha;
            hist.push(op);
            let (got, want) = if op < nt { (gen(&g1, &texts[op]), &e1[op]) } else { (gen(&g2, &texts[op - nt]), &e2[op - nt]) };
            if got != *want {
                let d = differ(want, &got).unwrap_or_else(|| "bytes differ".into());
                return Some((hist, d));
            }
        }
        None
    });
    r.add("call_histories", n as u64);
    r.states += n as u64;
    r.transitions += (n * depth) as u64;
    r.traces += n as u64;
    if let Some((h, d)) = bad.into_iter().flatten().next() {
        let show: Vec<String> = h.iter().map(|o| if *o < nt { format!("default generator: {}", texts[*o].replace('\n', " ")) } else { format!("generator with Clone: {}", texts[*o - nt].replace('\n', " ")) }).collect();
        r.violate(
            "history",
            format!("after {} calls in one process the output differs from that of a fresh process: {}", h.len() - 1, d),
            format!("mode: history\n\ncalls:\n{}", show.join("\n")),
        );
    }
}

/// One generator called very often: whatever counts calls shows.
fn repetitions(r: &mut Report, kit: &[Spec], th: bool) {
    let texts: Vec<String> = kit.iter().take(4).map(|s| s.text()).chain(["struct {".to_string()]).collect();
    let want: Vec<String> = pool::run(&texts, &Mode::Hash)
        .into_iter()
        .map(|o| match o {
            Out::Ok(s) => s,
            Out::Err(e) => pool::hash(&format!("Err {}", e.len())),
            _ => pool::hash("panic"),
        })
        .collect();
    let n = if th { 70_000 } else { 4_500 };
    // the same text always; the texts in turn
    let bad = par(texts.len() + 1, |k| {
        let g = Generator::default();
        (0..n).find(|i| {
            let t = if k < texts.len() { k } else { i % texts.len() };
            pool::hash(&gen(&g, &texts[t])) != want[t]
        })
    });
    let calls = (n * (texts.len() + 1)) as u64;
    r.add("calls_on_one_generator", n as u64);
    r.states += calls;
    r.transitions += calls;
    r.traces += calls;
    if let Some((k, i)) = bad.iter().enumerate().find_map(|(k, i)| i.map(|i| (k, i))) {
        r.violate("repetition", format!("call {} on one Generator answers differently than the first call of a fresh process (sequence {})", i + 1, k), format!("mode: history\n\nrepeated {} times:\n{}\n", i + 1, texts[k.min(texts.len() - 1)]));
    }
}

/// All ordered pairs of calls over texts that differ in as little as one
/// character, so that whatever is remembered of the first call shows in the
/// second: same length, same head, same tail, same tokens, same names.
fn neighbours(r: &mut Report, kit: &[Spec], th: bool) {
    let mut texts: Vec<String> = vec![];
    for label in ["K unions", "K generic chain"] {
        let s = kit.iter().find(|s| s.label.contains(label)).unwrap();
        let t = s.tokens();
        let b = base(&t, 0);
        texts.push(join(&t, &b));
        texts.push(join(&t, &base(&t, 1)));
        texts.push(with(&t, &b, &[(t.len() / 2, " /* c */ ")]));
        texts.push(with(&t, &b, &[(0, "\n")]));
        for i in 0..t.len() {
            let mut u = t.clone();
            let c = u[i].chars().next().unwrap();
            if c.is_ascii_digit() {
                // another digit at the end
                let l = u[i].pop().unwrap();
                u[i].push(if l == '1' { '2' } else { '1' });
            } else if ["int", "hyper", "float", "double", "string", "opaque", "bool"].contains(&u[i].as_str()) {
                u[i] = match u[i].as_str() {
                    "string" => "opaque",
                    "opaque" => "string",
                    "int" => "i32",
                    "float" => "hyper",
                    "hyper" => "float",
                    "double" => "string",
                    _ => "int ",
                }
                .to_string();
            } else if c.is_ascii_alphabetic() && !["struct", "union", "switch", "case", "default", "void", "const", "enum", "typedef", "unsigned"].contains(&u[i].as_str()) {
                let l = u[i].pop().unwrap();
                u[i].push(if l == 'q' { 'r' } else { 'q' });
            } else {
                continue;
            }
            texts.push(join(&u, &b));
        }
    }
    texts.push(String::new());
    texts.dedup();
    if !th && texts.len() > 160 {
        let k = texts.len() / 160 + 1;
        texts = texts.into_iter().enumerate().filter(|(i, _)| i % k == 0).map(|x| x.1).collect();
    }
    let exp: Vec<String> = pool::run(&texts, &Mode::Hash)
        .into_iter()
        .map(|o| match o {
            Out::Ok(s) => s,
            Out::Err(e) => pool::hash(&format!("Err {}", e.len())),
            _ => pool::hash("panic"),
        })
        .collect();
    let n = texts.len();
    let bad = par(n, |i| {
        for j in 0..n {
            let g = Generator::default();
            let _ = gen(&g, &texts[i]);
            if pool::hash(&gen(&g, &texts[j])) != exp[j] {
                return Some(j);
            }
        }
        None
    });
    r.add("ordered_pairs_of_neighbouring_texts", (n * n) as u64);
    r.states += (n * n) as u64;
    r.transitions += 2 * (n * n) as u64;
    r.traces += (n * n) as u64;
    if let Some((i, j)) = bad.iter().enumerate().find_map(|(i, j)| j.map(|j| (i, j))) {
        r.violate(
            "neighbours",
            "generate answers differently after a call for a similar text on the same Generator than in a fresh process".to_string(),
            format!("mode: history\n\nfirst:\n{}\n\nsecond:\n{}\n", texts[i], texts[j]),
        );
    }
}

/// Replaces what a process can learn from the outside: randomness, the
/// environment whatever the variable asked for, the clocks, identities, names.
const SHIM: &str = r#"
#define _GNU_SOURCE
#include <string.h>
#include <stddef.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>
#include <sys/types.h>
#include <sys/time.h>
#include <sys/utsname.h>
#include <sys/syscall.h>
extern char **environ;
static const char *get(const char *k) {
    size_t n = strlen(k);
    if (!environ) return 0;
    for (char **e = environ; *e; e++) if (!strncmp(*e, k, n) && (*e)[n] == '=') return *e + n + 1;
    return 0;
}
static unsigned long long num(const char *k) {
    const char *s = get(k);
    unsigned long long x = 0;
    if (s) for (; *s >= '0' && *s <= '9'; s++) x = x * 10 + (*s - '0');
    return x;
}
char *getenv(const char *k) {
    const char *all = get("MC_ENV");
    if (all && strncmp(k, "RUST_", 5) && strncmp(k, "MC_", 3) && strncmp(k, "LD_", 3)) return (char *)all;
    return (char *)get(k);
}
char *secure_getenv(const char *k) { return getenv(k); }
ssize_t getrandom(void *b, size_t n, unsigned f) {
    (void)f;
    unsigned long long x = num("MC_SEED");
    unsigned char *p = b;
    for (size_t i = 0; i < n; i++) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; p[i] = x >> 56; }
    return n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) < 0 ? -1 : 0; }
int clock_gettime(clockid_t c, struct timespec *t) {
    long r = syscall(SYS_clock_gettime, c, t);
    if (r < 0) return -1;
    if (get("MC_CLOCK")) t->tv_sec = num("MC_CLOCK");
    return 0;
}
time_t time(time_t *p) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}
int gettimeofday(struct timeval *v, void *z) {
    struct timespec t;
    (void)z;
    clock_gettime(CLOCK_REALTIME, &t);
    v->tv_sec = t.tv_sec;
    v->tv_usec = t.tv_nsec / 1000;
    return 0;
}
pid_t getpid(void) { return get("MC_ID") ? (pid_t)num("MC_ID") : syscall(SYS_getpid); }
pid_t getppid(void) { return get("MC_ID") ? (pid_t)num("MC_ID") + 1 : syscall(SYS_getppid); }
uid_t getuid(void) { return get("MC_ID") ? (uid_t)num("MC_ID") : syscall(SYS_getuid); }
uid_t geteuid(void) { return get("MC_ID") ? (uid_t)num("MC_ID") : syscall(SYS_geteuid); }
int gethostname(char *b, size_t n) { strncpy(b, get("MC_HOST") ? get("MC_HOST") : "localhost", n); return 0; }
int uname(struct utsname *u) {
    long r = syscall(SYS_uname, u);
    if (get("MC_HOST")) strncpy(u->nodename, get("MC_HOST"), sizeof u->nodename - 1);
    return r < 0 ? -1 : 0;
}
char *getcwd(char *b, size_t n) {
    const char *d = get("MC_CWD");
    if (d && b) {
        if (!*d) { errno = ENOENT; return 0; }
        if (strlen(d) >= n) { errno = ERANGE; return 0; }
        return strcpy(b, d);
    }
    return syscall(SYS_getcwd, b, n) < 0 ? 0 : b;
}
"#;

/// Fresh processes: enumerated hash seeds and surroundings.
fn processes(r: &mut Report, texts: &[String], th: bool) {
    let shim = build_dir().join("getrandom.so");
    let src = build_dir().join(format!("getrandom-{}.c", std::process::id()));
    std::fs::write(
        &src,
        SHIM,
    )
    .unwrap();
    let tmp = build_dir().join(format!("getrandom-{}.so", std::process::id()));
    let ok = Command::new("cc").args(["-shared", "-fPIC", "-O1", "-o"]).arg(&tmp).arg(&src).status().map_or(false, |s| s.success());
    if ok {
        let _ = std::fs::rename(&tmp, &shim);
    }
    let _ = std::fs::remove_file(&src);
    let list = build_dir().join(format!("texts-{}", std::process::id()));
    std::fs::write(&list, texts.iter().map(|t| format!("{}\0", t)).collect::<String>()).unwrap();
    let me = std::env::current_exe().unwrap();
    let seeds = if th { 256 } else { 48 };
    let envs: Vec<(&str, Vec<(&str, &str)>, &str)> = vec![
        ("plain", vec![], "/"),
        ("another locale and time zone", vec![("LC_ALL", "tr_TR.UTF-8"), ("LANG", "de_DE.ISO-8859-1"), ("TZ", "Pacific/Auckland")], "/"),
        ("another home, user and directory", vec![("HOME", "/nonexistent"), ("USER", "somebody"), ("OUT_DIR", "/nonexistent")], "/tmp"),
        ("cargo variables", vec![("CARGO_PKG_NAME", "x"), ("CARGO_MANIFEST_DIR", "/nonexistent"), ("PROFILE", "release"), ("DEBUG", "1"), ("RUST_LOG", "trace"), ("SOURCE_DATE_EPOCH", "1")], "/usr"),
        ("no environment", vec![("-", "")], "/"),
        ("every variable empty", vec![("MC_ENV", "")], "/"),
        ("every variable 1", vec![("MC_ENV", "1")], "/"),
        ("every variable 0", vec![("MC_ENV", "0")], "/"),
        ("every variable a path", vec![("MC_ENV", "/a b/c.x")], "/"),
        ("every variable a derive line", vec![("MC_ENV", "#[derive(Debug, PartialEq, Clone)]")], "/"),
        ("every variable true", vec![("MC_ENV", "true")], "/"),
        ("the epoch", vec![("MC_CLOCK", "0")], "/"),
        ("one second after the epoch", vec![("MC_CLOCK", "1")], "/"),
        ("1999", vec![("MC_CLOCK", "946684799")], "/"),
        ("2000", vec![("MC_CLOCK", "946684800")], "/"),
        ("29 February 2024", vec![("MC_CLOCK", "1709210096")], "/"),
        ("2038", vec![("MC_CLOCK", "2147483648")], "/"),
        ("2106", vec![("MC_CLOCK", "4294967296")], "/"),
        ("process 1", vec![("MC_ID", "1")], "/"),
        ("process 32767", vec![("MC_ID", "32767")], "/"),
        ("process 4194304", vec![("MC_ID", "4194304")], "/"),
        ("another host", vec![("MC_HOST", "build-host.example")], "/"),
        ("no working directory", vec![("MC_CWD", "")], "/"),
        ("a working directory of several words", vec![("MC_CWD", "/home/some body/a b")], "/"),
        ("a project directory", vec![("MC_CWD", "/home/u/src/fastxdr")], "/"),
        ("a working directory that is not ASCII", vec![("MC_CWD", "/h\u{e9}/\u{1f600}")], "/"),
    ];
    // names the process is called by, standard streams it finds
    let names = ["", "fastxdr", "/usr/bin/build script", "build-script-build", "rustc", "cargo"];
    let mut runs: Vec<(usize, usize)> = vec![];
    for s in 0..seeds {
        runs.push((s, 0));
    }
    for e in 1..envs.len() {
        for s in 0..3 {
            runs.push((s, e));
        }
    }
    let outs: Vec<Option<Vec<String>>> = par(runs.len(), |k| {
        let (seed, e) = runs[k];
        let mut c = Command::new(&me);
        c.arg("hashes").arg(&list);
        let (_, vars, dir) = &envs[e];
        if vars.first().map_or(false, |v| v.0 == "-") {
            c.env_clear();
        } else {
            for (a, b) in vars {
                c.env(a, b);
            }
        }
        c.current_dir(dir).env("MC_SEED", (seed * 7 + 1).to_string());
        // the last ones with the system's own seeds
        if ok && seed + 6 < seeds {
            c.env("LD_PRELOAD", &shim);
        }
        if e == 0 && !names[seed % names.len()].is_empty() {
            use std::os::unix::process::CommandExt;
            c.arg0(names[seed % names.len()]);
        }
        c.stdin(std::process::Stdio::null());
        let o = c.output().ok()?;
        if !o.status.success() {
            return None;
        }
        Some(String::from_utf8_lossy(&o.stdout).lines().map(|l| l.to_string()).collect())
    });
    let _ = std::fs::remove_file(&list);
    r.add("fresh_processes", runs.len() as u64);
    r.add("controlled_hash_seeds", if ok { seeds as u64 - 6 } else { 0 });
    let mut orders = BTreeSet::new();
    let mut first: Option<&Vec<String>> = None;
    for (k, o) in outs.iter().enumerate() {
        r.states += 1;
        r.transitions += texts.len() as u64;
        let o = match o {
            Some(o) => o,
            None => {
                r.violate("process", format!("the generator ended a fresh process ({}, seed {})", envs[runs[k].1].0, runs[k].0), "mode: process\n".to_string());
                return;
            }
        };
        // the last line tells the iteration order of a hash set in that process
        orders.insert(o.last().unwrap().clone());
        let o = o;
        match first {
            None => first = Some(o),
            Some(f) => {
                r.traces += 1;
                if let Some(i) = (0..texts.len()).find(|i| f[*i] != o[*i]) {
                    r.violate(
                        format!("process|{}", i),
                        format!("fresh processes generate different text for one specification ({}, seed {}): {} and {}", envs[runs[k].1].0, runs[k].0, f[i], o[i]),
                        format!("mode: process\n\nspecification text:\n{}", texts[i]),
                    );
                    return;
                }
            }
        }
    }
    // the seeds do reach the hash sets of the process
    r.add("distinct_hash_orders_among_processes", orders.len() as u64);
    r.add("specifications_per_process", texts.len() as u64);
}

/// One process of `processes`.
pub fn hashes(file: &str) -> ! {
    let t = std::fs::read_to_string(file).unwrap();
    let g = Generator::default();
    for x in t.split_terminator('\0') {
        println!("{}", pool::hash(&gen(&g, x)));
    }
    let h: std::collections::HashSet<String> = (0..12).map(|i| format!("name{}", i)).collect();
    println!("{}", h.into_iter().collect::<Vec<_>>().join(" "));
    std::process::exit(0)
}

/// Free-running calls from several threads (not exhaustive; a
/// complement to the sequential histories).
fn threads(r: &mut Report, texts: &[String]) {
    let g = Generator::default();
    let want: Vec<String> = texts.iter().map(|t| gen(&g, t)).collect();
    drop(g);
    // one value per thread: whether a Generator may be shared is not at stake
    let bad = par_with(texts.len() * 16, JOBS, Generator::default, |g, k| {
        let i = (k * 5 + k / 8) % texts.len();
        gen(g, &texts[i]) != want[i]
    });
    r.add("free_running_concurrent_calls", bad.len() as u64);
    if bad.iter().any(|b| *b) {
        r.violate("threads", "concurrent calls produced another text", "mode: threads\n".to_string());
    }
}
