//! C15: the binary prints what the library returns, for every list of arguments.
use crate::pipeline::*;
use crate::pool::{self, Mode, Out};
use mcrt::layout::*;
use mcrt::report::*;
use mcrt::spec::*;
use mcrt::{models, universe};
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

extern "C" {
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

fn build(release: bool) -> PathBuf {
    let td = build_dir().join("cli");
    let mut c = Command::new("cargo");
    c.args(["build", "--offline", "--quiet", "--manifest-path"]).arg(repo().join("Cargo.toml")).args(["--bin", "fastxdr", "--target-dir"]).arg(&td);
    if release {
        c.arg("--release");
    }
    let o = c.output().expect("cargo");
    if !o.status.success() {
        eprintln!("the fastxdr binary does not build:\n{}", String::from_utf8_lossy(&o.stderr));
        std::process::exit(2);
    }
    td.join(if release { "release" } else { "debug" }).join("fastxdr")
}

/// What an argument stands for.
#[derive(Clone)]
struct Kind {
    name: String,
    arg: OsString,
    /// None: the argument names nothing that can be read as text
    text: Option<String>,
    /// in the alphabet of which lists of three are made in the quick tier
    small: bool,
    tiny: bool,
}

struct Bench {
    dir: PathBuf,
    kinds: Vec<Kind>,
}

impl Bench {
    fn path(&self, name: &[u8]) -> PathBuf {
        self.dir.join(OsStr::from_bytes(name))
    }
    fn file(&mut self, label: &str, name: &[u8], contents: &[u8], size: u8) {
        std::fs::write(self.path(name), contents).expect("scratch file");
        self.arg(label, name, Some(contents), size);
    }
    fn arg(&mut self, label: &str, arg: &[u8], contents: Option<&[u8]>, size: u8) {
        self.kinds.push(Kind {
            name: label.into(),
            arg: OsString::from_vec(arg.to_vec()),
            text: contents.and_then(|c| String::from_utf8(c.to_vec()).ok()),
            small: size >= 1,
            tiny: size >= 2,
        });
    }
}

fn padded(len: usize, unit: &str) -> String {
    // a comment that makes the file this long, then a declaration
    let tail = " */\nstruct padded { int x; };\n";
    let mut s = String::from("/* ");
    let room = len - tail.len() - s.len();
    let n = room / unit.len();
    for _ in 0..room - n * unit.len() {
        s.push('.');
    }
    for _ in 0..n {
        s.push_str(unit);
    }
    s.push_str(tail);
    assert_eq!(s.len(), len);
    s
}

fn bench(dir: &Path) -> Bench {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir.join("sub/deep")).expect("scratch");
    std::fs::create_dir_all(dir.join("dir.x")).expect("scratch");
    let mut b = Bench { dir: dir.to_path_buf(), kinds: vec![] };
    let one = "struct one { unsigned int a; string b<8>; };\n";
    let kit: Vec<Spec> = kitchen();
    // readable, accepted
    b.file("a struct", b"one.x", one.as_bytes(), 2);
    b.file("another struct of the same name", b"two.x", b"struct one { hyper c; opaque d<>; };\nconst LIMIT = 4;", 2);
    b.file("a type declared in another file", b"uses_one.x", b"struct holder { one o; one rest<LIMIT>; };\n", 0);
    b.file("a typedef only", b"tdef.x", b"typedef opaque blob<16>;\n", 1);
    b.file("many declarations", b"kitchen.x", kit[0].text().as_bytes(), 1);
    b.file("the other kitchen", b"kitchen1.x", kit[1 % kit.len()].text().as_bytes(), 0);
    b.file("an empty file", b"empty.x", b"", 2);
    b.file("a blank file", b"blank.x", b" \n\t\r\n", 0);
    b.file("a comment only", b"comment.x", b"/* nothing */", 0);
    b.file("a line comment that ends the file", b"nonl.x", b"enum e { A = 1 }; // {} %s \\n {0}", 1);
    b.file("CRLF line ends", b"crlf.x", b"struct crlf {\r\n  int x; // c\r\n};\r\n", 0);
    b.file("text beyond ASCII in a comment", b"utf8.x", "/* \u{e9}\u{2028}\u{1f600} */ struct u8s { bool b; };\n".as_bytes(), 1);
    b.file("constants only", b"consts.x", b"const A = 1; const B = 0x10;", 0);
    let many: String = (0..120).map(|i| format!("struct s{} {{ int a; opaque b<>; }};\n", i)).collect();
    b.file("output of more than 64 KiB", b"large.x", many.as_bytes(), 1);
    for n in [4095, 4096, 8191, 8192, 8193, 65536, 65537] {
        b.file(&format!("a file of {} bytes", n), format!("len{}.x", n).as_bytes(), padded(n, "x").as_bytes(), 0);
    }
    b.file("wide characters at every buffer end", b"wide.x", padded(30001, "\u{20ac}").as_bytes(), 0);
    // names
    for (i, n) in ["with space.x", "-", "--", "-h", "--help", "--version", "-o", "@one.x", "a=b.x", "*", "new\nline.x", "%s{}.x", "noextension", "UPPER.X", "\u{e9}.x", "'q\".x", "~", "$HOME", "one.x.bak", "0"]
        .iter()
        .enumerate()
    {
        let t = format!("struct named{} {{ int x; }};\n", i);
        b.file(&format!("a file called {:?}", n), n.as_bytes(), t.as_bytes(), if *n == "-h" || *n == "with space.x" { 1 } else { 0 });
    }
    b.file("a name that is not UTF-8", b"\xff\xfe.x", b"struct raw { int x; };\n", 1);
    // ways to get there
    b.arg("through the current directory", b"./one.x", Some(one.as_bytes()), 0);
    b.arg("up and down", b"sub/deep/../../one.x", Some(one.as_bytes()), 0);
    let abs = b.path(b"one.x").as_os_str().as_bytes().to_vec();
    b.arg("absolute path", &abs, Some(one.as_bytes()), 0);
    std::os::unix::fs::symlink("../one.x", b.path(b"sub/link.x")).expect("symlink");
    b.arg("symbolic link", b"sub/link.x", Some(one.as_bytes()), 0);
    std::fs::hard_link(b.path(b"one.x"), b.path(b"hard.x")).expect("link");
    b.arg("hard link", b"hard.x", Some(one.as_bytes()), 0);
    b.arg("the null device", b"/dev/null", Some(b""), 0);
    // readable, rejected
    b.file("not a specification", b"bad.x", b"struct {", 2);
    b.file("a good start", b"tail.x", b"struct fine { int x; };\n}\n", 1);
    b.file("an undeclared label", b"label.x", b"union u switch (int d) { case NOPE: int x; };", 1);
    b.file("a byte order mark", b"bom.x", b"\xef\xbb\xbfstruct bom { int x; };", 0);
    b.file("a NUL byte behind the specification", b"nul.x", b"struct nul { int x; };\0", 0);
    b.file("an open comment", b"open.x", b"struct open { int x; }; /* ", 0);
    // not readable as text
    b.file("bytes that are not UTF-8", b"latin1.x", b"/* \xe9 */ struct l1 { int x; };\n", 1);
    b.file("a character cut off at the end", b"cut.x", b"struct l1 { int x; }; // \xe2\x82", 0);
    b.file("UTF-16", b"utf16.x", b"\xff\xfes\0t\0r\0", 0);
    b.arg("no such file", b"missing.x", None, 2);
    b.arg("an existing file without its extension", b"one", None, 1);
    b.arg("the empty name", b"", None, 1);
    b.arg("a directory", b"dir.x", None, 1);
    b.arg("below a file", b"one.x/two.x", None, 0);
    std::os::unix::fs::symlink("nowhere.x", b.path(b"dangling.x")).expect("symlink");
    b.arg("a dangling link", b"dangling.x", None, 0);
    std::os::unix::fs::symlink("loop.x", b.path(b"loop.x")).expect("symlink");
    b.arg("a link to itself", b"loop.x", None, 0);
    b.arg("a name that is too long", &[b'n'; 300], None, 0);
    b.arg("two names in one argument", b"one.x two.x", None, 0);
    b
}

struct Ran {
    code: Option<i32>,
    how: String,
    out: Vec<u8>,
    err: Vec<u8>,
}

fn limits(c: &mut Command) {
    unsafe {
        c.pre_exec(|| {
            setrlimit(0, &[20, 20]); // CPU seconds
            setrlimit(9, &[3 << 30, 3 << 30]); // address space
            Ok(())
        });
    }
}

fn run(bin: &Path, dir: &Path, args: &[&OsStr]) -> Ran {
    let mut c = Command::new(bin);
    c.current_dir(dir).args(args);
    finish(c)
}
fn finish(mut c: Command) -> Ran {
    c.stdin(Stdio::null());
    limits(&mut c);
    match c.output() {
        Ok(o) => Ran { code: o.status.code(), how: o.status.to_string() + &o.status.signal().map(|_| " (no answer)".to_string()).unwrap_or_default(), out: o.stdout, err: o.stderr },
        Err(e) => Ran { code: None, how: format!("not started: {}", e), out: vec![], err: vec![] },
    }
}

/// The model: what the list of file contents must lead to.
fn expected(lib: &[&Result<String, String>]) -> Result<Vec<u8>, String> {
    let mut o = vec![];
    if lib.is_empty() {
        return Err("no arguments".into());
    }
    for x in lib {
        match x {
            Ok(t) => o.extend(t.as_bytes()),
            Err(e) => return Err(e.clone()),
        }
    }
    Ok(o)
}

fn judge(r: &Ran, lib: &[&Result<String, String>]) -> Option<String> {
    match expected(lib) {
        Ok(want) => {
            if r.code != Some(0) {
                return Some(format!("every file is a specification the library accepts, but the program ended with {}: {}", r.how, String::from_utf8_lossy(&r.err).chars().take(300).collect::<String>()));
            }
            if r.out != want {
                let at = r.out.iter().zip(&want).take_while(|(a, b)| a == b).count();
                let cut = |v: &[u8]| String::from_utf8_lossy(&v[at.saturating_sub(30).min(v.len())..(at + 60).min(v.len())]).to_string();
                return Some(format!("standard output ({} bytes) is not what generate returns ({} bytes): from byte {} {:?} instead of {:?}", r.out.len(), want.len(), at, cut(&r.out), cut(&want)));
            }
        }
        Err(why) => {
            match r.code {
                Some(0) => return Some(format!("the program reports success though: {}", why)),
                None => return Some(format!("the program ended with {} though it only had to report: {}", r.how, why)),
                _ => {}
            }
            let mut rest: &[u8] = &r.out;
            for x in lib.iter().filter_map(|x| x.as_ref().ok()) {
                if let Some(t) = rest.strip_prefix(x.as_bytes()) {
                    rest = t;
                }
            }
            let blank = |v: &[u8]| v.iter().all(|c| c.is_ascii_whitespace());
            if blank(&r.err) && blank(rest) {
                return Some(format!("the program fails without a diagnostic: {}", why));
            }
        }
    }
    None
}

fn lists(n: usize, len: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]];
    for _ in 0..len {
        v = v.into_iter().flat_map(|p| (0..n).map(move |i| { let mut q: Vec<usize> = p.clone(); q.push(i); q })).collect();
    }
    v
}

pub fn check(tier: &str) -> Report {
    let th = tier == "thorough";
    let mut r = Report::new("C15", tier);
    r.rule = "state = (argument list, position) of the model that concatenates generate() of the files or fails at the first that cannot be read or is rejected; every list is one execution of the binary built from the tree, compared byte for byte".into();
    r.assumptions = vec!["a file that is not UTF-8 is unreadable (generate takes a str)".into(), "on failure, what was already written for earlier files is not judged".into()];
    let mut bins = vec![("debug", build(false))];
    if th {
        bins.push(("release", build(true)));
    }
    let dir = build_dir().join(format!("c15-{}", std::process::id()));
    let b = bench(&dir);
    let lib_of = |texts: &[String]| -> Vec<Result<String, String>> {
        pool::run(texts, &Mode::Gen(None))
            .into_iter()
            .map(|o| match o {
                Out::Ok(s) => Ok(s),
                Out::Err(e) => Err(format!("rejected: {}", e)),
                Out::Panic(e) => Err(format!("generate panics: {}", e)),
                Out::Died(e) => Err(format!("generate: {}", e)),
            })
            .collect()
    };
    let lib: Vec<Result<String, String>> = {
        let texts: Vec<String> = b.kinds.iter().map(|k| k.text.clone().unwrap_or_default()).collect();
        lib_of(&texts).into_iter().zip(&b.kinds).map(|(o, k)| if k.text.is_some() { o } else { Err(format!("unreadable: {}", k.name)) }).collect()
    };
    for (k, l) in b.kinds.iter().zip(&lib) {
        r.add(if l.is_ok() { "kinds_of_arguments_accepted" } else if k.text.is_some() { "kinds_of_arguments_rejected" } else { "kinds_of_arguments_unreadable" }, 1);
    }
    let all: Vec<usize> = (0..b.kinds.len()).collect();
    let small: Vec<usize> = all.iter().cloned().filter(|i| b.kinds[*i].small).collect();
    let tiny: Vec<usize> = all.iter().cloned().filter(|i| b.kinds[*i].tiny).collect();
    let mut todo: Vec<(String, Vec<usize>)> = vec![];
    let mut add = |alphabet: &[usize], len: usize, todo: &mut Vec<(String, Vec<usize>)>| {
        for l in lists(alphabet.len(), len) {
            todo.push((format!("lists of {}", len), l.into_iter().map(|i| alphabet[i]).collect()));
        }
    };
    add(&all, 0, &mut todo);
    add(&all, 1, &mut todo);
    add(&all, 2, &mut todo);
    add(if th { &all } else { &small }, 3, &mut todo);
    add(if th { &small } else { &tiny }, 4, &mut todo);
    add(&tiny, 5, &mut todo);
    if th {
        add(&tiny, 6, &mut todo);
    }
    // long lists: one place differs
    for len in [8usize, 16, 17, 33, 64, 100, 255, 256, 257] {
        for odd in &tiny {
            for at in [0, len / 2, len - 1] {
                let mut l = vec![tiny[0]; len];
                l[at] = *odd;
                todo.push(("long lists".into(), l));
            }
        }
    }
    let fails: Vec<Option<String>> = {
        let (b, lib, todo, bins) = (&b, &lib, &todo, &bins);
        par(todo.len(), |i| {
            let args: Vec<&OsStr> = todo[i].1.iter().map(|k| b.kinds[*k].arg.as_os_str()).collect();
            let l: Vec<&Result<String, String>> = todo[i].1.iter().map(|k| &lib[*k]).collect();
            bins.iter().filter(|(n, _)| *n == "debug" || todo[i].1.len() <= 2).find_map(|(n, bin)| judge(&run(bin, &b.dir, &args), &l).map(|w| format!("{} ({} build)", w, n)))
        })
    };
    let mut states = 0u64;
    for ((fam, l), f) in todo.iter().zip(&fails) {
        r.add(&format!("executions_{}", fam.replace(' ', "_")), 1);
        states += l.len() as u64 + 1;
        if let Some(w) = f {
            let names: Vec<String> = l.iter().take(6).map(|k| b.kinds[*k].name.clone()).collect();
            let texts: String = l.iter().take(6).map(|k| format!("--- {:?}\n{}\n", b.kinds[*k].arg, b.kinds[*k].text.clone().unwrap_or("(not readable as text)".into()).chars().take(2000).collect::<String>())).collect();
            r.violate(format!("list:{}", names.join(";")), format!("fastxdr with {} argument(s) [{}]: {}", l.len(), names.join(", "), w), format!("mode: cli\nargs: {:?}\n\n{}", l.iter().map(|k| b.kinds[*k].arg.clone()).collect::<Vec<_>>(), texts));
        }
    }
    r.transitions = todo.iter().map(|t| t.1.len() as u64).sum();
    r.traces = todo.len() as u64;
    // ---- how the program is started and where its output goes
    let pairs: Vec<usize> = small.clone();
    let mut config = |what: &str, l: &[usize], ran: Ran, r: &mut Report| {
        let x: Vec<&Result<String, String>> = l.iter().map(|k| &lib[*k]).collect();
        r.traces += 1;
        states += l.len() as u64 + 1;
        r.transitions += l.len() as u64;
        r.add("executions_in_other_configurations", 1);
        if let Some(w) = judge(&ran, &x) {
            let names: Vec<String> = l.iter().map(|k| b.kinds[*k].name.clone()).collect();
            r.violate(format!("{}:{}", what, names.join(";")), format!("fastxdr {} with [{}]: {}", what, names.join(", "), w), format!("mode: cli\n\n{:?}\n", l.iter().map(|k| b.kinds[*k].arg.clone()).collect::<Vec<_>>()));
        }
    };
    let bin = bins[0].1.clone();
    for l in lists(pairs.len(), 1).into_iter().chain(lists(tiny.len(), 2)).chain(lists(1, 0)).map(|l| if l.len() == 2 { l.into_iter().map(|i| tiny[i]).collect::<Vec<_>>() } else { l.into_iter().map(|i| pairs[i]).collect() }) {
        let args: Vec<&OsStr> = l.iter().map(|k| b.kinds[*k].arg.as_os_str()).collect();
        // an empty environment
        let mut c = Command::new(&bin);
        c.current_dir(&b.dir).args(&args).env_clear();
        config("in an empty environment", &l, finish(c), &mut r);
        let mut c = Command::new(&bin);
        c.current_dir(&b.dir).args(&args).env("RUST_BACKTRACE", "full").env("LC_ALL", "C").env("HOME", "/nonexistent").env("NO_COLOR", "1").env("RUST_LOG", "trace").env("DEBUG", "1");
        config("with RUST_BACKTRACE, RUST_LOG and LC_ALL set", &l, finish(c), &mut r);
        // another name, another directory
        let mut c = Command::new(&bin);
        c.arg0(OsStr::from_bytes(b"\xff")).current_dir(&b.dir).args(&args);
        config("called \\xff", &l, finish(c), &mut r);
        let up: Vec<OsString> = args
            .iter()
            .map(|a| {
                if a.as_bytes().starts_with(b"/") || a.is_empty() {
                    a.to_os_string()
                } else {
                    let mut v = b"../../".to_vec();
                    v.extend(a.as_bytes());
                    OsString::from_vec(v)
                }
            })
            .collect();
        let mut c = Command::new(&bin);
        c.current_dir(b.dir.join("sub/deep")).args(&up);
        config("run two directories below", &l, finish(c), &mut r);
        // into a file, and behind what is already in it
        let f = b.dir.join("sub/out.txt");
        std::fs::write(&f, "before").unwrap();
        let mut c = Command::new(&bin);
        c.current_dir(&b.dir).args(&args).stdin(Stdio::null()).stdout(std::fs::OpenOptions::new().append(true).open(&f).unwrap()).stderr(Stdio::piped());
        limits(&mut c);
        let o = c.output().expect("run");
        let got = std::fs::read(&f).unwrap();
        let ran = Ran {
            code: o.status.code(),
            how: o.status.to_string(),
            out: got.strip_prefix(b"before").map(|x| x.to_vec()).unwrap_or(got),
            err: o.stderr,
        };
        config("appending to a file", &l, ran, &mut r);
        // nothing can be written: no success
        if let Ok(full) = std::fs::OpenOptions::new().write(true).open("/dev/full") {
            let x: Vec<&Result<String, String>> = l.iter().map(|k| &lib[*k]).collect();
            if expected(&x).map_or(false, |t| !t.is_empty()) {
                let mut c = Command::new(&bin);
                c.current_dir(&b.dir).args(&args).stdin(Stdio::null()).stdout(full).stderr(Stdio::piped());
                limits(&mut c);
                let o = c.output().expect("run");
                r.add("executions_with_a_full_device", 1);
                r.traces += 1;
                if o.status.success() {
                    let names: Vec<String> = l.iter().map(|k| b.kinds[*k].name.clone()).collect();
                    r.violate(format!("full:{}", names.join(";")), format!("fastxdr [{}] exits 0 though nothing it wrote reached standard output (/dev/full)", names.join(", ")), "mode: cli\n\n".to_string());
                }
            }
        }
    }
    // no permission
    let plain = b.dir.join("plain");
    std::fs::create_dir_all(&plain).ok();
    {
        use std::os::unix::fs::PermissionsExt;
        let tmp = PathBuf::from(format!("/tmp/c15-{}", std::process::id()));
        let _ = std::fs::create_dir(&tmp);
        let perm = |p: &Path, m: u32| {
            let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(m));
        };
        perm(&tmp, 0o755);
        let _ = std::fs::copy(&bin, tmp.join("fastxdr"));
        perm(&tmp.join("fastxdr"), 0o755);
        let _ = std::fs::write(tmp.join("ok.x"), "struct ok { int x; };");
        perm(&tmp.join("ok.x"), 0o644);
        let _ = std::fs::write(tmp.join("no.x"), "struct ok { int x; };");
        perm(&tmp.join("no.x"), 0);
        let ok = lib_of(&["struct ok { int x; };".to_string()]).remove(0);
        let no: Result<String, String> = Err("unreadable: permission denied".into());
        let go = |l: &[&str]| {
            let mut c = Command::new(tmp.join("fastxdr"));
            c.current_dir(&tmp).args(l).uid(65534).gid(65534);
            finish(c)
        };
        // only where the other user can be assumed, and can run it
        if go(&["ok.x"]).code == Some(0) {
            for l in lists(2, 1).into_iter().chain(lists(2, 2)).chain(lists(2, 3)) {
                let args: Vec<&str> = l.iter().map(|i| ["ok.x", "no.x"][*i]).collect();
                let x: Vec<&Result<String, String>> = l.iter().map(|i| [&ok, &no][*i]).collect();
                r.add("executions_without_permission", 1);
                r.traces += 1;
                if let Some(w) = judge(&go(&args), &x) {
                    r.violate(format!("permission:{:?}", args), format!("fastxdr {:?} (no.x may not be read): {}", args, w), "mode: cli\n\n".to_string());
                }
            }
        }
        let _ = std::fs::remove_dir_all(&tmp);
    }
    // a pipe as the file
    for (k, kind) in b.kinds.iter().enumerate() {
        let t = match (&kind.text, kind.arg.as_bytes()) {
            (Some(t), a) if !a.starts_with(b"/dev") => t.clone(),
            _ => continue,
        };
        for (l, args) in [(vec![k], vec!["/dev/stdin"]), (vec![0, k], vec!["one.x", "/dev/stdin"]), (vec![k, 0], vec!["/dev/stdin", "one.x"])] {
            let mut c = Command::new(&bin);
            c.current_dir(&b.dir).args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
            limits(&mut c);
            let mut ch = match c.spawn() {
                Ok(c) => c,
                Err(_) => continue,
            };
            let mut i = ch.stdin.take().unwrap();
            let t2 = t.clone();
            let h = std::thread::spawn(move || {
                use std::io::Write;
                let _ = i.write_all(t2.as_bytes());
            });
            let o = ch.wait_with_output().expect("run");
            let _ = h.join();
            let ran = Ran { code: o.status.code(), how: o.status.to_string(), out: o.stdout, err: o.stderr };
            config("reading from a pipe", &l, ran, &mut r);
        }
    }
    // ---- large files, and much output, at every place of a list
    {
        let m = 1usize << 20;
        let mut big: Vec<(String, String)> = vec![];
        for n in [m - 1, m, m + 1, 2 * m, 2 * m + 1, 4 * m + 1] {
            big.push((format!("a comment in a file of {} bytes", n), padded(n, "x")));
        }
        let lines: String = "/* filler */\n".repeat(90_000);
        big.push(("many short comments, more than a megabyte".into(), format!("{}struct last {{ int x; }};\n", lines)));
        let many: String = (0..9000).map(|i| format!("struct s{} {{ int a; opaque b<>; }};\n", i)).collect();
        big.push(("9000 declarations".into(), many));
        big.push(("more than a megabyte that is rejected at its end".into(), format!("{}struct last {{ int x; }}\n", lines)));
        if th {
            big.push(("a comment in a file of 64 MiB".into(), padded(64 * m + 1, "x")));
        }
        let texts: Vec<String> = big.iter().map(|b| b.1.clone()).collect();
        let outs = lib_of(&texts);
        let one = lib.first().expect("the first kind is a struct");
        let bd = b.dir.join("big");
        std::fs::create_dir_all(&bd).unwrap();
        for (i, t) in texts.iter().enumerate() {
            std::fs::write(bd.join(format!("{}.x", i)), t).expect("scratch file");
        }
        let small_file = OsString::from("../one.x");
        let f: Vec<Option<String>> = par(3 * big.len(), |k| {
            let (i, how) = (k / 3, k % 3);
            let me = OsString::from(format!("{}.x", i));
            match how {
                0 => judge(&run(&bin, &bd, &[&me]), &[&outs[i]]),
                1 => judge(&run(&bin, &bd, &[&small_file, &me]), &[one, &outs[i]]),
                _ => judge(&run(&bin, &bd, &[&me, &small_file, &me]), &[&outs[i], one, &outs[i]]),
            }
        });
        for (k, f) in f.iter().enumerate() {
            r.traces += 1;
            r.transitions += [1, 2, 3][k % 3];
            states += [2, 3, 4][k % 3];
            r.add("executions_on_large_files", 1);
            if let Some(w) = f {
                let (what, t) = &big[k / 3];
                r.violate(format!("large:{}:{}", what, k % 3), format!("fastxdr with {} ({}): {}", what, ["alone", "after another file", "before and after another file"][k % 3], w), format!("mode: cli\n\n{} bytes: {}\n", t.len(), what));
            }
        }
    }
    // ---- every model specification, alone and with the one before it
    let mut specs: Vec<Spec> = kit_all();
    specs.extend(universe::set("C08", "quick"));
    specs.extend(models::declarators());
    specs.extend(models::values(th));
    specs.extend(models::names());
    if th {
        specs.extend(models::unions(3));
        specs.extend(models::kinds(3));
    }
    let texts: Vec<String> = {
        let mut v: Vec<String> = specs.iter().map(|s| s.text()).collect();
        let kit = kitchen();
        let t = kit[0].tokens();
        for st in 0..3 {
            let bs = base(&t, st);
            for tr in TRIVIA {
                v.push(with(&t, &bs, &[(0, tr)]));
                v.push(with(&t, &bs, &[(t.len(), tr)]));
                v.push(with(&t, &bs, &[(t.len() / 2, tr)]));
            }
        }
        v.extend(crate::c14::odd().into_iter().map(|s| s.to_string()));
        v
    };
    let outs = lib_of(&texts);
    let mut accepted = 0u64;
    for o in &outs {
        accepted += o.is_ok() as u64;
    }
    let sd = b.dir.join("specs");
    std::fs::create_dir_all(&sd).unwrap();
    for (i, t) in texts.iter().enumerate() {
        std::fs::write(sd.join(format!("{}.x", i)), t).expect("scratch file");
    }
    let f: Vec<Option<String>> = {
        let (outs, sd, bin, texts) = (&outs, &sd, &bin, &texts);
        par(texts.len(), |i| {
            let me = OsString::from(format!("{}.x", i));
            let prev = OsString::from(format!("{}.x", i.max(1) - 1));
            judge(&run(bin, sd, &[&me]), &[&outs[i]]).or_else(|| {
                if i % 4 == 0 || th {
                    judge(&run(bin, sd, &[&prev, &me]), &[&outs[i.max(1) - 1], &outs[i]])
                } else {
                    None
                }
            })
        })
    };
    for (i, f) in f.iter().enumerate() {
        r.traces += 1;
        states += 2;
        r.transitions += 1;
        r.add("executions_on_model_specifications", 1);
        if let Some(w) = f {
            r.violate(format!("spec:{:016x}", mcrt::util::fnv(texts[i].as_bytes())), format!("fastxdr on {:?}: {}", texts[i].chars().take(200).collect::<String>(), w), format!("mode: cli\n\n{}", texts[i]));
        }
    }
    r.add("model_specifications_accepted", accepted);
    r.add("model_specifications_rejected", texts.len() as u64 - accepted);
    r.states = states;
    r.exhaustive = Some(true);
    let mut seen: BTreeMap<String, u64> = BTreeMap::new();
    for k in &b.kinds {
        *seen.entry(k.name.clone()).or_insert(0) += 1;
    }
    r.samples = vec![todo[3].1.iter().map(|k| b.kinds[*k].name.clone()).collect::<Vec<_>>().join(", "), todo[todo.len() / 2].1.iter().map(|k| b.kinds[*k].name.clone()).collect::<Vec<_>>().join(", "), seen.keys().cloned().collect::<Vec<_>>().join("; ")];
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn kit_all() -> Vec<Spec> {
    let mut v = kitchen();
    for s in v.iter_mut() {
        universe::tame(s);
    }
    v
}
