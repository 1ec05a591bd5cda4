//! The part that runs inside a shard process, next to the generated code.
use crate::codec::*;
use crate::explore::*;
use crate::sem::*;
use crate::spec::Spec;
use crate::tk::*;
use crate::util::*;
use fastxdr::bytes::Bytes;
use std::collections::HashSet;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

pub struct TypeOps {
    pub spec: usize,
    pub def: usize,
    pub dec: fn(Bytes, &mut Sink) -> Result<usize, ErrK>,
    pub decm: fn(&mut Bytes, &mut Sink) -> Result<usize, ErrK>,
    pub build: fn(&mut Source<'_>) -> usize,
    /// decode and measure the bytes requested from the allocator (both families)
    pub alloc: fn(&Bytes) -> (u64, u64),
    pub size_of: usize,
}

#[macro_export]
macro_rules! ops {
    ($x:ident, $ty:ty, $spec:expr, $def:expr) => {{
        use $crate::bytes::Bytes;
        use $crate::codec::ErrK;
        use $crate::tk::{Sink, Source, Tk};
        fn dec(b: Bytes, s: &mut Sink) -> Result<usize, ErrK> {
            match <$ty as std::convert::TryFrom<Bytes>>::try_from(b) {
                Ok(v) => {
                    Tk::put(&v, s);
                    Ok(if s.wire { $x::WireSize::wire_size(&v) } else { 0 })
                }
                Err(e) => Err(ek(e)),
            }
        }
        fn decm(b: &mut Bytes, s: &mut Sink) -> Result<usize, ErrK> {
            match <$ty as std::convert::TryFrom<&mut Bytes>>::try_from(b) {
                Ok(v) => {
                    Tk::put(&v, s);
                    Ok(if s.wire { $x::WireSize::wire_size(&v) } else { 0 })
                }
                Err(e) => Err(ek(e)),
            }
        }
        fn build(i: &mut Source<'_>) -> usize {
            let v: $ty = Tk::take(i);
            $x::WireSize::wire_size(&v)
        }
        fn alloc(b: &Bytes) -> (u64, u64) {
            let c = b.clone();
            let mut d = b.clone();
            let k = $crate::rt::alloc_start();
            let r = <$ty as std::convert::TryFrom<Bytes>>::try_from(c);
            let n1 = $crate::rt::alloc_stop(k);
            drop(r);
            let k = $crate::rt::alloc_start();
            let r = <$ty as std::convert::TryFrom<&mut Bytes>>::try_from(&mut d);
            let n2 = $crate::rt::alloc_stop(k);
            drop(r);
            (n1, n2)
        }
        $crate::rt::TypeOps { spec: $spec, def: $def, dec, decm, build, alloc, size_of: std::mem::size_of::<$ty>() }
    }};
}

#[macro_export]
macro_rules! errk {
    ($x:ident) => {
        #[allow(unreachable_patterns)]
        fn ek(e: $x::Error) -> $crate::codec::ErrK {
            use $crate::codec::ErrK;
            match e {
                $x::Error::InvalidLength => ErrK::Len,
                $x::Error::NonUtf8String(_) => ErrK::Utf8,
                $x::Error::InvalidBoolean => ErrK::Bool,
                $x::Error::UnknownVariant(v) => ErrK::Variant(v),
                $x::Error::UnknownOptionVariant(v) => ErrK::Opt(v),
                e => ErrK::Other(format!("{:?}", e)),
            }
        }
    };
}

// ---- counting allocator -------------------------------------------------------

pub struct Counting;
static REQ: AtomicU64 = AtomicU64::new(0);
static ON: AtomicBool = AtomicBool::new(false);
/// a single request above this fails, as it would on a machine of ordinary size
const LIMIT: usize = 8 << 30;

unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if ON.load(Relaxed) {
            REQ.fetch_add(l.size() as u64, Relaxed);
        }
        if l.size() > LIMIT {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if ON.load(Relaxed) {
            REQ.fetch_add(l.size() as u64, Relaxed);
        }
        if l.size() > LIMIT {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if ON.load(Relaxed) {
            REQ.fetch_add(n as u64, Relaxed);
        }
        if n > LIMIT {
            return std::ptr::null_mut();
        }
        std::alloc::System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
}
pub fn alloc_start() -> u64 {
    ON.store(true, Relaxed);
    REQ.load(Relaxed)
}
pub fn alloc_stop(k: u64) -> u64 {
    ON.store(false, Relaxed);
    REQ.load(Relaxed) - k
}

// ---- breadcrumb: what was executing, readable after a crash ----------------------

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}
pub struct Crumb {
    p: *mut u8,
}
pub const CRUMB: usize = 1 << 17;
static SEQ: AtomicU64 = AtomicU64::new(0);
static CUR: AtomicU64 = AtomicU64::new(0);

impl Crumb {
    pub fn open(path: &str) -> Crumb {
        use std::os::fd::IntoRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).unwrap();
        f.set_len(CRUMB as u64).unwrap();
        let fd = f.into_raw_fd();
        let p = unsafe { mmap(std::ptr::null_mut(), CRUMB, 3, 1, fd, 0) };
        assert!(p as isize != -1);
        Crumb { p }
    }
    fn set(&self, spec: usize, def: usize, what: u8, input: &[u8]) {
        SEQ.fetch_add(1, Relaxed);
        CUR.store(((spec as u64) << 32) | def as u64, Relaxed);
        let n = input.len().min(CRUMB - 32);
        unsafe {
            let h = self.p as *mut u32;
            *h = 0x43525542;
            *h.add(1) = spec as u32;
            *h.add(2) = def as u32;
            *h.add(3) = what as u32;
            *h.add(4) = n as u32;
            *h.add(5) = (input.len() > n) as u32;
            std::ptr::copy_nonoverlapping(input.as_ptr(), self.p.add(32), n);
        }
    }
}
/// (spec, def, what, input, input was cut)
pub fn read_crumb(path: &str) -> Option<(usize, usize, u32, Vec<u8>, bool)> {
    let b = std::fs::read(path).ok()?;
    if b.len() < 32 {
        return None;
    }
    let g = |i: usize| u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
    if g(0) != 0x43525542 {
        return None;
    }
    let n = g(4) as usize;
    Some((g(1) as usize, g(2) as usize, g(3), b[32..32 + n].to_vec(), g(5) != 0))
}

// ---- runner ---------------------------------------------------------------------

#[derive(Default)]
pub struct Stats {
    pub executions: u64,
    pub states: u64,
    pub transitions: u64,
    pub types: u64,
    pub complete_types: u64,
    pub min_levels: u64,
    pub outcomes: HashSet<u64>,
    pub accepted: u64,
    pub rejected: u64,
    pub base_executions: u64,
}

pub struct Budget {
    pub cfg: Cfg,
    pub max_dev: u32,
    pub cap: u64,
    pub hard: u64,
    /// base values used for mutation
    pub mut_cap: u64,
    pub seq_len: u32,
}

pub fn budget(prop: &str, tier: &str) -> Budget {
    let q = tier != "thorough";
    let (cap, hard, mut_cap, seq_len) = match (prop, q) {
        ("C01" | "C02" | "C08", true) => (400, 2500, 0, 0),
        ("C01" | "C02" | "C08", false) => (4000, 60000, 0, 0),
        ("C03", true) => (40, 200, 12, 3),
        ("C03", false) => (400, 4000, 60, 4),
        ("C04", true) => (0, 0, 20, 4),
        ("C04", false) => (0, 0, 200, 5),
        ("C05", true) => (60, 150, 150, 0),
        ("C05", false) => (600, 4000, 4000, 0),
        ("C06", true) => (60, 300, 60, 0),
        ("C06", false) => (600, 6000, 600, 0),
        ("C09", true) => (0, 0, 12, 3),
        ("C09", false) => (0, 0, 100, 5),
        _ => (100, 1000, 10, 3),
    };
    Budget { cfg: if q { Cfg::quick() } else { Cfg::thorough() }, max_dev: if q { 3 } else { 5 }, cap, hard, mut_cap, seq_len }
}

struct Run<'a> {
    prop: &'a str,
    tier: &'a str,
    out: std::io::BufWriter<std::fs::File>,
    crumb: Crumb,
    tick: usize,
    st: Stats,
    b: Budget,
    // current type
    ops: &'a TypeOps,
    sem: &'a Sem,
    spec: &'a Spec,
    viol: u32,
    total_viol: u32,
    seen: HashSet<u64>,
    sink: Sink,
    sink2: Sink,
    smax: usize,
    samples: u32,
    sample_at: u64,
    /// bytes presented for the current type
    spent: usize,
}

enum R {
    Ok(usize),
    Err(ErrK),
    Panic(String),
}
/// What a decode came to.
#[derive(PartialEq)]
enum Base {
    Ok(Vec<u8>),
    Err(ErrK),
    Panic,
}
impl Base {
    fn of(r: &R, toks: &[u8]) -> Base {
        match r {
            R::Ok(_) => Base::Ok(toks.to_vec()),
            R::Err(e) => Base::Err(e.clone()),
            R::Panic(_) => Base::Panic,
        }
    }
    fn show(&self) -> String {
        match self {
            Base::Ok(t) => format!("Ok {}", show(t)),
            Base::Err(e) => format!("Err({:?})", e),
            Base::Panic => "a panic".into(),
        }
    }
}
const SUFFIXES: [&[u8]; 5] = [&[], &[0], &[0xff, 0xff, 0xff, 0xff], &[0, 0, 0, 1, 0, 0, 0, 1, 0], &[0x61; 7]];
static LONG: [u8; 70_000] = [0; 70_000];
static LONG_SUFFIX: &[u8] = &LONG;
impl R {
    fn show(&self) -> String {
        match self {
            R::Ok(_) => "Ok".into(),
            R::Err(e) => format!("Err({:?})", e),
            R::Panic(m) => format!("PANIC({})", m),
        }
    }
}

fn pmsg(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}

impl<'a> Run<'a> {
    fn violation(&mut self, kind: &str, input: &[u8], detail: String) {
        self.viol += 1;
        self.total_viol += 1;
        if self.viol <= 2 {
            let l = format!(
                "VIOL\t{}\t{}\t{}\t{}\t{}\n",
                self.ops.spec,
                self.ops.def,
                esc(kind),
                if input.len() > 1 << 20 { "".into() } else { hexfull(input) },
                esc(&detail)
            );
            self.out.write_all(l.as_bytes()).unwrap();
            self.out.flush().unwrap();
        }
    }
    fn count(&mut self, input: &[u8]) {
        self.st.executions += 1;
        self.spent += input.len() + 16;
        if self.st.executions == self.sample_at && self.samples < 4 && input.len() < 300 {
            self.samples += 1;
            self.sample_at += 9973;
            let l = format!(
                "SAMPLE\t{}\t{}\t{}\t{}\n",
                esc(&self.spec.label),
                self.sem.defs[self.ops.def].name,
                hexfull(input),
                esc(&show(&refdec(self.sem, self.ops.def, input).tok))
            );
            self.out.write_all(l.as_bytes()).unwrap();
        } else if self.st.executions == self.sample_at {
            self.sample_at += 1;
        }
        if self.seen.insert(fnv(input)) {
            self.st.states += 1;
        }
    }
    fn outcome(&mut self, r: &R, tok: u64) {
        let h = match r {
            R::Ok(_) => {
                self.st.accepted += 1;
                tok
            }
            R::Err(e) => {
                self.st.rejected += 1;
                fnv(format!("{:?}", e).as_bytes())
            }
            R::Panic(_) => 7,
        };
        if self.st.outcomes.len() < 1_000_000 {
            self.st.outcomes.insert(h);
        }
    }
    fn dec(&mut self, b: Bytes, wire: bool) -> R {
        self.crumb.set(self.ops.spec, self.ops.def, 1, &b);
        self.sink.clear();
        self.sink.wire = wire;
        let (ops, s) = (self.ops, &mut self.sink);
        match catch_unwind(AssertUnwindSafe(|| (ops.dec)(b, s))) {
            Ok(Ok(n)) => R::Ok(n),
            Ok(Err(e)) => R::Err(e),
            Err(p) => R::Panic(pmsg(p)),
        }
    }
    fn decm(&mut self, b: &mut Bytes, wire: bool) -> R {
        self.crumb.set(self.ops.spec, self.ops.def, 2, b);
        self.sink2.clear();
        self.sink2.wire = wire;
        let (ops, s) = (self.ops, &mut self.sink2);
        match catch_unwind(AssertUnwindSafe(|| (ops.decm)(b, s))) {
            Ok(Ok(n)) => R::Ok(n),
            Ok(Err(e)) => R::Err(e),
            Err(p) => R::Panic(pmsg(p)),
        }
    }
    fn build(&mut self, toks: &[u8]) -> Result<usize, String> {
        self.crumb.set(self.ops.spec, self.ops.def, 3, toks);
        let ops = self.ops;
        catch_unwind(AssertUnwindSafe(|| (ops.build)(&mut Source { b: toks }))).map_err(pmsg)
    }

    fn values(&mut self, cap: u64, hard: u64, mut f: impl FnMut(&mut Self, &Enc<'_>)) {
        let cfg = self.b.cfg.clone();
        let sem = self.sem;
        let mut enc = Enc::new(sem, &cfg);
        let def = self.ops.def;
        let md = self.b.max_dev;
        let e = explore(md, cap, hard, |ch| {
            enc.reset();
            enc.def(def, ch, 0, 0);
            f(self, &enc);
            self.viol < 2
        });
        self.st.transitions += e.transitions;
        if e.complete {
            self.st.complete_types += 1;
        } else {
            self.st.min_levels = self.st.min_levels.min(e.levels_done as u64);
        }
        // around the other base schedules, where the leaves of one value take
        // different alternatives from the start
        if e.max_points > 1 && cfg.lens.iter().all(|l| *l <= 70_000) {
            for base in [1, 2] {
                if self.viol >= 2 {
                    return;
                }
                let n = (cap / 8).max(cap.min(12));
                let e = explore_from(base, md.min(2), n, (hard / 8).max(hard.min(12)), |ch| {
                    enc.reset();
                    enc.def(def, ch, 0, 0);
                    f(self, &enc);
                    self.viol < 2
                });
                self.st.transitions += e.transitions;
                self.st.base_executions += e.executions;
            }
        }
    }

    // ---- C01, C02, C08 ----------------------------------------------------
    fn c01(&mut self) {
        self.values(self.b.cap, self.b.hard, |r, e| {
            r.count(&e.wire);
            let x = r.dec(Bytes::copy_from_slice(&e.wire), false);
            let h = fnv(&r.sink.b);
            r.outcome(&x, h);
            match &x {
                R::Ok(_) if r.sink.b == e.tok.b => {}
                R::Ok(_) => {
                    let d = format!("expected {} got {}", show(&e.tok.b), show(&r.sink.b));
                    r.violation("decoded value differs from the encoded value", &e.wire, d)
                }
                o => {
                    let d = format!("decode of {} gave {}", show(&e.tok.b), o.show());
                    r.violation("valid encoding rejected", &e.wire, d)
                }
            }
        });
        self.contents(|r, w, tok| {
            r.count(w);
            let x = r.dec(Bytes::copy_from_slice(w), false);
            if !matches!(x, R::Ok(_)) || r.sink.b != tok {
                let d = format!("expected {} got {} {}", show(tok), x.show(), show(&r.sink.b));
                r.violation("decoded value differs from the encoded value", w, d)
            }
        });
        self.deep(&[10, 100, 1000]);
    }
    /// Contents: every leaf of the default value with every content of an
    /// alphabet; and, where the type is nothing but one leaf, dense families.
    fn contents(&mut self, mut f: impl FnMut(&mut Self, &[u8], &[u8])) {
        const WORDS: [u32; 34] = [
            0, 1, 2, 3, 4, 5, 7, 8, 0x20, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x1_0000, 0x7f_ffff, 0x80_0000, 0xff_ffff, 0x100_0000, 0x3f80_0000, 0x7f7f_ffff, 0x7f80_0000, 0x7f80_0001, 0x7fbf_ffff, 0x7fc0_0000,
            0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xff80_0000, 0xffc0_0001, 0xffff_fffe, 0xffff_ffff,
        ];
        const HIGH: [u32; 14] = [0, 1, 0xff, 0x8000, 0x3ff0_0000, 0x7fef_ffff, 0x7ff0_0000, 0x7ff7_ffff, 0x7ff8_0000, 0x7fff_ffff, 0x8000_0000, 0xfff0_0000, 0xfff8_0001, 0xffff_ffff];
        const LOW: [u32; 6] = [0, 1, 0x7fff_ffff, 0x8000_0000, 0xff, 0xffff_ffff];
        const TEXTS: [&str; 28] = [
            " ", "\t", "\n", "\r", "\0", "\u{b}", "\u{1b}", "\u{7f}", "\"", "\\", "'", "%", "A", "Z", "0", "/", ".", "-", "\u{80}", "\u{e9}", "\u{df}", "\u{130}", "\u{301}", "\u{2028}", "\u{200b}", "\u{feff}", "\u{fffd}", "\u{1f600}",
        ];
        if self.viol > 0 {
            return;
        }
        let (sem, def) = (self.sem, self.ops.def);
        let mut left = if self.tier == "thorough" { 40_000usize } else { 1200 };
        let n = if self.tier == "thorough" { 20 } else { 1 };
        self.values(n, n, |r, e| {
            let mut one = |r: &mut Self, v: &[u8]| {
                let rf = refdec(sem, def, v);
                if rf.res == Ok(v.len()) && r.viol == 0 {
                    f(r, v, &rf.tok)
                }
            };
            let mut v = e.wire.clone();
            for a in &e.ann {
                if left == 0 || r.viol > 0 {
                    break;
                }
                let (b, z) = (a.off, a.off + a.len);
                match a.k {
                    K::Word => {
                        for w in WORDS {
                            left = left.saturating_sub(1);
                            v[b..z].copy_from_slice(&w.to_be_bytes());
                            one(r, &v);
                        }
                    }
                    K::Wide => {
                        for h in HIGH {
                            for l in LOW {
                                left = left.saturating_sub(1);
                                v[b..b + 4].copy_from_slice(&h.to_be_bytes());
                                v[b + 4..z].copy_from_slice(&l.to_be_bytes());
                                one(r, &v);
                            }
                        }
                    }
                    K::Payload => {
                        for x in [0u8, 1, 4, 0x20, 0x61, 0x7f, 0x80, 0xff] {
                            left = left.saturating_sub(4);
                            v[b] = x;
                            one(r, &v);
                            v[z - 1] = x;
                            one(r, &v);
                            v[b..z].iter_mut().for_each(|y| *y = x);
                            one(r, &v);
                            v[b..z].copy_from_slice(&e.wire[b..z]);
                            v[z - 1] = x;
                            one(r, &v);
                            v[b..z].copy_from_slice(&e.wire[b..z]);
                        }
                    }
                    K::StrBytes => {
                        for t in TEXTS {
                            let t = t.as_bytes();
                            let k = t.len();
                            if k > z - b {
                                continue;
                            }
                            left = left.saturating_sub(4);
                            v[b..b + k].copy_from_slice(t);
                            one(r, &v);
                            v[z - k..z].copy_from_slice(t);
                            one(r, &v);
                            v[b..z].copy_from_slice(&e.wire[b..z]);
                            v[z - k..z].copy_from_slice(t);
                            one(r, &v);
                            // as often as it fits
                            let m = (z - b) / k * k;
                            for i in 0..m {
                                v[b + i] = t[i % k];
                            }
                            one(r, &v);
                            v[b..z].copy_from_slice(&e.wire[b..z]);
                        }
                    }
                    _ => {}
                }
                v[b..z].copy_from_slice(&e.wire[b..z]);
            }
        });
        // dense families
        let leaf = match &sem.defs[def].def {
            Def::New(t) => t,
            Def::Struct(f) if f.len() == 1 => &f[0].1,
            _ => return,
        };
        if !self.spec.label.starts_with("P1") || self.viol > 0 {
            return;
        }
        let thorough = self.tier == "thorough";
        let mut one = |r: &mut Self, v: &[u8]| {
            let rf = refdec(sem, def, v);
            if rf.res == Ok(v.len()) && r.viol == 0 {
                f(r, v, &rf.tok)
            }
        };
        let counted = |s: &[u8]| {
            let mut v = (s.len() as u32).to_be_bytes().to_vec();
            v.extend_from_slice(s);
            v.resize(pad4(v.len()), 0);
            v
        };
        match leaf {
            T::U32 | T::I32 | T::F32 => {
                let al: &[u8] = if thorough { &[0, 1, 2, 0x20, 0x3f, 0x40, 0x7e, 0x7f, 0x80, 0x81, 0xa5, 0xc0, 0xf0, 0xfe, 0xff] } else { &[0, 1, 0x7f, 0x80, 0x81, 0xff] };
                let k = al.len();
                for i in 0..k.pow(4) {
                    one(self, &[al[i % k], al[i / k % k], al[i / k / k % k], al[i / k / k / k]]);
                }
            }
            T::U64 | T::I64 | T::F64 => {
                let al: &[u8] = if thorough { &[0, 1, 0x7f, 0x80, 0xff] } else { &[0, 0x7f, 0x80] };
                let k = al.len();
                for mut i in 0..k.pow(8) {
                    let mut v = [0u8; 8];
                    for b in v.iter_mut() {
                        *b = al[i % k];
                        i /= k;
                    }
                    one(self, &v);
                }
            }
            T::OpVar(None) => {
                for i in 0..if thorough { 65536u32 } else { 256 } {
                    one(self, &counted(&[i as u8]));
                    one(self, &counted(&[(i >> 8) as u8, i as u8]));
                    one(self, &counted(&[(i >> 8) as u8, i as u8, 0, 0, (i >> 8) as u8]));
                }
            }
            T::Str(None) => {
                // every character alone, all pairs of ASCII characters
                for c in (0..=0x10_ffffu32).filter_map(char::from_u32) {
                    if !thorough && c as u32 > 0x3100 && c as u32 & 0x1f != 0x1f && (c as u32) < 0xf000 || !thorough && c as u32 > 0x1_0000 && c as u32 & 0xff < 0xfd {
                        continue;
                    }
                    let s = String::from(c);
                    one(self, &counted(s.as_bytes()));
                    one(self, &counted(format!("a{}", s).as_bytes()));
                    one(self, &counted(format!("{}a", s).as_bytes()));
                }
                for a in 0..128u8 {
                    for b in 0..128u8 {
                        one(self, &counted(&[a, b]));
                        one(self, &counted(&[b'a', a, b, b'a']));
                    }
                }
            }
            _ => {}
        }
    }
    fn c02(&mut self) {
        self.values(self.b.cap, self.b.hard, |r, e| {
            r.count(&e.wire);
            let want = e.wire.len();
            match r.build(&e.build_tokens()) {
                Ok(n) if n == want => {
                    r.st.outcomes.insert(n as u64);
                }
                Ok(n) => {
                    let d = format!("value {} wire_size()={} encoded length={}", show(&e.tok.b), n, want);
                    r.violation("wire_size() differs from the encoded length", &e.wire, d)
                }
                Err(p) => r.violation("wire_size() panicked", &e.wire, format!("{} {}", show(&e.tok.b), p)),
            }
            let mut buf = Bytes::copy_from_slice(&e.wire);
            if let R::Ok(n) = r.decm(&mut buf, true) {
                r.st.accepted += 1;
                if r.sink2.b == e.tok.b && (n != want || buf.len() != 0) {
                    let d = format!(
                        "decoded value {} wire_size()={} encoded length={} consumed={}",
                        show(&e.tok.b),
                        n,
                        want,
                        want - buf.len()
                    );
                    r.violation("wire_size() of the decoded value differs from what was consumed", &e.wire, d)
                }
            }
        });
        self.contents(|r, w, tok| {
            r.count(w);
            match r.build(tok) {
                Ok(n) if n == w.len() => {}
                o => r.violation("wire_size() differs from the encoded length", w, format!("value {} wire_size()={:?} encoded length={}", show(tok), o, w.len())),
            }
            let mut buf = Bytes::copy_from_slice(w);
            if let R::Ok(n) = r.decm(&mut buf, true) {
                if r.sink2.b == tok && (n != w.len() || buf.len() != 0) {
                    let d = format!("decoded value {} wire_size()={} encoded length={} consumed={}", show(tok), n, w.len(), w.len() - buf.len());
                    r.violation("wire_size() of the decoded value differs from what was consumed", w, d)
                }
            }
        });
    }
    fn c08(&mut self) {
        let mut nth = 0usize;
        self.values(self.b.cap, self.b.hard, |r, e| {
            r.count(&e.wire);
            nth += 1;
            for off in [0usize, [5, 2, 3][nth % 3]] {
                let mut v = vec![0xEEu8; off];
                v.extend_from_slice(&e.wire);
                v.extend_from_slice(&[0xEE; 3]);
                // a vector, a frozen buffer, static memory
                let whole = match nth % 4 {
                    _ if nth <= 20 && off > 0 && v.len() < 4096 => Bytes::from_static(Box::leak(v.into_boxed_slice())),
                    0 => {
                        let mut m = fastxdr::bytes::BytesMut::with_capacity(v.len() + off);
                        m.extend_from_slice(&v);
                        m.freeze()
                    }
                    _ => Bytes::from(v),
                };
                let view = whole.slice(off..off + e.wire.len());
                let base = view.as_ptr() as usize;
                for fam in 0..2 {
                    let (x, ops) = if fam == 0 {
                        (r.dec(view.clone(), false), r.sink.ops.clone())
                    } else {
                        let mut b = view.clone();
                        (r.decm(&mut b, false), r.sink2.ops.clone())
                    };
                    if let R::Ok(_) = x {
                        r.st.accepted += 1;
                        let same = if fam == 0 { r.sink.b == e.tok.b } else { r.sink2.b == e.tok.b };
                        // a payload is required to be a view at its wire offset
                        let mut bad = vec![];
                        for (k, (p, l)) in ops.iter().enumerate() {
                            if *l == 0 {
                                continue;
                            }
                            let inside = *p >= base && *p + *l <= base + e.wire.len();
                            if !inside {
                                bad.push(format!("payload #{} ({} bytes) lies outside the input allocation", k, l));
                            } else if same && e.ops.get(k) != Some(&(*p - base, *l)) {
                                bad.push(format!(
                                    "payload #{} at input offset {}, on the wire at {:?}",
                                    k,
                                    p - base,
                                    e.ops.get(k)
                                ));
                            }
                            r.st.outcomes.insert(((*p - base.min(*p)) as u64) << 20 | *l as u64);
                        }
                        if !bad.is_empty() {
                            let d = format!("value {}: {}", show(&e.tok.b), bad.join("; "));
                            r.violation("opaque payload is not a view of the input", &e.wire, d);
                        }
                    }
                }
            }
        });
    }

    // ---- inputs that need not be valid ---------------------------------------
    fn words(orig: u32, remaining: u32) -> Vec<u32> {
        let mut v = vec![
            0,
            1,
            2,
            3,
            4,
            5,
            7,
            8,
            0x100,
            0x1_0000,
            0x7fff_ffff,
            0x8000_0000,
            0xffff_fffc,
            0xffff_fffd,
            0xffff_ffff,
            orig.wrapping_add(1),
            orig.wrapping_sub(1),
            remaining,
            remaining.wrapping_sub(1),
            remaining.wrapping_sub(4),
            remaining.wrapping_add(1),
        ];
        v.sort();
        v.dedup();
        v.retain(|x| *x != orig);
        v
    }
    /// Bytes presented to a decoder in one sweep over the offsets of one encoding.
    /// Once a type has used up sixteen sweeps, the sweeps over its further
    /// (long) encodings are coarser.
    fn work(&self) -> usize {
        let w = if self.tier == "thorough" { 32 << 20 } else { 1 << 20 };
        match self.spent / w {
            0..=15 => w,
            16..=31 => w / 16,
            _ => w / 128,
        }
    }
    /// The length words of an encoding, each about to be changed `per` times; of
    /// long encodings (work limit) the first and the last ones.
    fn lengths<'e>(&self, e: &'e Enc<'_>, per: usize) -> Vec<&'e Ann> {
        let v: Vec<&Ann> = e.ann.iter().filter(|a| matches!(a.k, K::LenB { .. } | K::LenE { .. })).collect();
        let n = (self.work() * 4 / (e.wire.len() + 1) / per).max(3);
        let k = v.len();
        v.into_iter().enumerate().filter(|(i, _)| *i < n || i + n >= k).map(|x| x.1).collect()
    }
    /// Every length to cut an encoding to; of long encodings (sum of the lengths
    /// beyond the work limit) the first and last ones and a grid in between.
    fn cuts(&self, len: usize) -> Vec<usize> {
        let step = (len * len / 2 / self.work()).max(1);
        // all offsets modulo 4 are on the grid
        let step = if step > 1 { step | 1 } else { 1 };
        let edge = if len > 20_000 && self.tier != "thorough" { 20 } else { 64 };
        (0..len).filter(|k| *k < edge || *k + edge >= len || k % step == 0).collect()
    }
    /// Every truncation, every word replaced by every boundary value, and (deep)
    /// the two combined for short encodings.
    fn mutants(&mut self, e: &Enc<'_>, mut f: impl FnMut(&mut Self, &[u8])) {
        let w = &e.wire;
        for k in self.cuts(w.len()) {
            f(self, &w[..k]);
            if self.viol >= 2 {
                return;
            }
        }
        let mut v = w.clone();
        let max_words = (self.work() / (w.len() + 1) / 16).clamp(6, if self.tier == "thorough" { 4096 } else { 64 });
        for i in (0..w.len() / 4).take(max_words) {
            let o = u32::from_be_bytes([w[4 * i], w[4 * i + 1], w[4 * i + 2], w[4 * i + 3]]);
            let rem = (w.len() - 4 * i - 4) as u32;
            for x in Self::words(o, rem) {
                v[4 * i..4 * i + 4].copy_from_slice(&x.to_be_bytes());
                f(self, &v);
                if self.viol >= 2 {
                    return;
                }
            }
            v[4 * i..4 * i + 4].copy_from_slice(&w[4 * i..4 * i + 4]);
        }
        // the contents of strings: valid, cut off, malformed, everywhere near
        // their ends
        let strs: Vec<&Ann> = e.ann.iter().filter(|a| matches!(a.k, K::StrBytes) && a.len > 0).collect();
        let ns = strs.len();
        for (i, a) in strs.into_iter().enumerate() {
            if i >= 6 && i + 3 < ns {
                continue;
            }
            for s in STRINGS {
                for at in 0..a.len {
                    if at + s.len() > a.len || (at > 2 && at + s.len() + 1 < a.len) {
                        continue;
                    }
                    v[a.off + at..a.off + at + s.len()].copy_from_slice(s);
                    f(self, &v);
                    v[a.off..a.off + a.len].copy_from_slice(&w[a.off..a.off + a.len]);
                    if self.viol >= 2 {
                        return;
                    }
                }
            }
        }
        // a length word changed and the input cut right behind the new length
        for a in self.lengths(e, 64) {
            if let K::LenB { n, .. } | K::LenE { n, .. } = a.k {
                for x in [n.wrapping_add(1), n.wrapping_add(2), n.wrapping_add(3), n.wrapping_sub(1)] {
                    v[a.off..a.off + 4].copy_from_slice(&x.to_be_bytes());
                    for cut in 0..8usize {
                        let k = a.end + cut;
                        if k <= v.len() {
                            f(self, &v[..k]);
                        }
                        if cut > 0 && a.end >= cut {
                            f(self, &v[..a.end - cut]);
                        }
                    }
                }
                v[a.off..a.off + 4].copy_from_slice(&w[a.off..a.off + 4]);
            }
        }
    }
    /// All word sequences of length <= n over the alphabet, each with 0..3 trailing bytes.
    fn sequences(&mut self, n: u32, alpha: &[u32], tails: usize, mut f: impl FnMut(&mut Self, &[u8])) {
        for len in 0..=n {
            let mut idx = vec![0usize; len as usize];
            loop {
                let mut v: Vec<u8> = Vec::with_capacity(len as usize * 4 + 3);
                for i in &idx {
                    v.extend_from_slice(&alpha[*i].to_be_bytes())
                }
                for t in 0..=tails {
                    if t > 0 {
                        v.push(0x61)
                    }
                    f(self, &v);
                }
                if self.viol >= 2 {
                    return;
                }
                let mut k = 0;
                while k < idx.len() {
                    idx[k] += 1;
                    if idx[k] < alpha.len() {
                        break;
                    }
                    idx[k] = 0;
                    k += 1;
                }
                if k == idx.len() {
                    break;
                }
            }
        }
        self.st.transitions += (alpha.len() as u64).pow(n);
    }

    // ---- C03 -----------------------------------------------------------------
    fn agree(&mut self, v: &[u8], rich: bool, expect: Option<&Enc<'_>>) {
        self.count(v);
        let b = Bytes::copy_from_slice(v);
        let x = self.dec(b.clone(), false);
        let mut m = b.clone();
        let y = self.decm(&mut m, false);
        let h = fnv(&self.sink.b);
        self.outcome(&x, h);
        let same = match (&x, &y) {
            (R::Ok(_), R::Ok(_)) => self.sink.b == self.sink2.b,
            (R::Err(a), R::Err(b)) => a == b,
            _ => false,
        };
        if let (R::Panic(_), R::Panic(_)) = (&x, &y) {
            return; // C04's business
        }
        if !same {
            let d = format!(
                "TryFrom<Bytes>: {} {} ; TryFrom<&mut Bytes>: {} {}",
                x.show(),
                show(&self.sink.b),
                y.show(),
                show(&self.sink2.b)
            );
            return self.violation("the two decoder families disagree", v, d);
        }
        if let R::Ok(_) = y {
            let consumed = v.len() - m.len();
            let rf = refdec(self.sem, self.ops.def, v);
            let want = match expect {
                Some(e) => Some(e.wire.len()),
                None => match rf.res {
                    Ok(n) if rf.tok == self.sink2.b => Some(n),
                    _ => None, // accepted something the model rejects: C05/C06's business
                },
            };
            if let Some(want) = want {
                let tok = if let Some(e) = expect { &e.tok.b } else { &rf.tok };
                if consumed != want && self.sink2.b == *tok {
                    let d = format!("value {} occupies {} bytes, {} consumed", show(tok), want, consumed);
                    return self.violation("the &mut form does not consume exactly one value", v, d);
                }
                if m[..] != v[consumed..] {
                    return self.violation("remaining bytes changed", v, String::new());
                }
            }
        }
        let base = Base::of(&x, &self.sink.b);
        match expect {
            Some(e) if rich => self.surround(&v[..e.wire.len()], &base, &SUFFIXES),
            _ => self.elsewhere(v, &base),
        }
    }
    /// Bytes of any kind, somewhere else in a larger allocation.
    fn elsewhere(&mut self, v: &[u8], base: &Base) {
        self.tick = (self.tick + 1) % 4;
        let off = [1usize, 6, 3, 4096][self.tick];
        let mut w = vec![0u8; off];
        w.extend_from_slice(v);
        w.extend_from_slice(&[[0, 0, 0, 0, 0, 0, 0, 1], [0, 0, 0, 1, 0x61, 0, 0, 0]][self.tick % 2]);
        let view = Bytes::from(w).slice(off..off + v.len());
        self.st.executions += 1;
        let x = self.dec(view.clone(), false);
        let mut m = view.clone();
        let y = self.decm(&mut m, false);
        if Base::of(&x, &self.sink.b) != *base || Base::of(&y, &self.sink2.b) != *base {
            let d = format!(
                "at offset {} of a larger allocation: by value {} {}, by reference {} {}, elsewhere {}",
                off,
                x.show(),
                show(&self.sink.b),
                y.show(),
                show(&self.sink2.b),
                base.show()
            );
            self.violation("result depends on where the view lies", v, d);
        }
    }
    fn surround(&mut self, val: &[u8], base: &Base, sufs: &[&[u8]]) {
        for (si, suf) in sufs.iter().chain([&val, &LONG_SUFFIX]).enumerate() {
            for off in [0usize, 1, 2, 3, 4, 7, 8, 64] {
                if si > 2 && off > 3 || suf.len() > 10_000 && off > 1 {
                    continue;
                }
                if val.len() > 1 << 18 && (si > 2 || ![0, 3].contains(&off)) {
                    continue;
                }
                let mut v = vec![0x5Au8; off];
                v.extend_from_slice(val);
                v.extend_from_slice(suf);
                // bytes beyond the view: must never be looked at
                v.extend_from_slice(&[0, 0, 0, 2]);
                let whole = Bytes::from(v);
                let view = whole.slice(off..off + val.len() + suf.len());
                self.st.transitions += 1;
                self.st.executions += 1;
                let x = self.dec(view.clone(), false);
                let mut m = view.clone();
                let y = self.decm(&mut m, false);
                let okx = Base::of(&x, &self.sink.b) == *base;
                let oky = Base::of(&y, &self.sink2.b) == *base;
                if !okx || !oky {
                    let d = format!(
                        "suffix {} ({} bytes) offset {}: by value {} {}, by reference {} {}, without {}",
                        hex(&suf[..suf.len().min(16)]),
                        suf.len(),
                        off,
                        x.show(),
                        show(&self.sink.b),
                        y.show(),
                        show(&self.sink2.b),
                        base.show()
                    );
                    self.violation("result depends on what surrounds the value", &view, d);
                    return;
                }
                if !matches!(base, Base::Ok(_)) {
                    continue;
                }
                if m[..] != **suf || (!suf.is_empty() && m.as_ptr() != view[val.len()..].as_ptr()) {
                    let d = format!("suffix {} ({} bytes) offset {}: {} bytes left {}", hex(&suf[..suf.len().min(16)]), suf.len(), off, m.len(), hex(&m[..m.len().min(64)]));
                    self.violation("the &mut form does not leave exactly the following bytes", &view, d);
                    return;
                }
            }
        }
    }
    fn c03(&mut self) {
        self.values(self.b.cap, self.b.hard, |r, e| r.agree(&e.wire, true, Some(e)));
        let mc = self.b.mut_cap;
        if self.viol < 2 {
            self.values(mc, mc, |r, e| r.mutants(e, |r, v| r.agree(v, false, None)));
        }
        let n = self.b.seq_len;
        self.sequences(n, &[0, 1, 2, 3, 0xffff_ffff, 7], 3, |r, v| r.agree(v, false, None));
    }

    // ---- C04 -----------------------------------------------------------------
    fn nopanic(&mut self, v: &[u8]) {
        self.count(v);
        let b = Bytes::copy_from_slice(v);
        let x = self.dec(b.clone(), false);
        let h = fnv(&self.sink.b);
        self.outcome(&x, h);
        let mut m = b;
        let y = self.decm(&mut m, false);
        for (n, r) in [("Bytes", &x), ("&mut Bytes", &y)] {
            if let R::Panic(p) = r {
                let d = format!("TryFrom<{}> panicked: {}", n, p);
                return self.violation("decoder panicked", v, d);
            }
        }
    }
    fn c04(&mut self) {
        let mc = self.b.mut_cap;
        self.values(mc, mc, |r, e| {
            r.nopanic(&e.wire);
            if e.wire.len() < if r.tier == "thorough" { 1 << 20 } else { 50_000 } {
                r.mutants(e, |r, v| r.nopanic(v))
            }
        });
        let n = self.b.seq_len;
        self.sequences(n, &[0, 1, 2, 3, 5, 0x7fff_ffff, 0xffff_ffff], 3, |r, v| r.nopanic(v));
        // longer sequences over the smallest alphabet reach nested structures
        self.sequences(if self.tier == "thorough" { 12 } else { 8 }, &[0, 1], 0, |r, v| r.nopanic(v));
        self.deep(&[10, 100, 1000]);
        if self.sem.defs[self.ops.def].recursive {
            // long constant inputs: recursion as deep as the input allows
            for w in [0u32, 1, 2, 3] {
                for words in [64usize, 1024, 4096] {
                    let v: Vec<u8> = std::iter::repeat(w.to_be_bytes()).take(words).flatten().collect();
                    // nesting depth implied by the model must stay within the
                    // depth the check requires to be supported
                    if self.model_depth(&v) <= 1000 {
                        self.nopanic(&v);
                    }
                }
            }
        }
    }
    fn model_depth(&self, v: &[u8]) -> usize {
        // recursion consumes at least one word per level
        v.len() / 4
    }
    /// Chains nested exactly n deep.
    fn deep(&mut self, ns: &[u32]) {
        if !self.sem.defs[self.ops.def].recursive || self.viol >= 2 {
            return;
        }
        for n in ns {
            if let Some((w, tok)) = deep_value(self.sem, self.ops.def, *n) {
                self.count(&w);
                let x = self.dec(Bytes::from(w.clone()), false);
                match x {
                    R::Ok(_) if self.sink.b == tok => {}
                    R::Panic(p) => self.violation("decoder panicked", &w, format!("chain nested {} deep: {}", n, p)),
                    o => {
                        if self.prop == "C01" {
                            let d = format!("chain nested {} deep: {}", n, o.show());
                            self.violation("deep chain not decoded to its value", &w, d)
                        }
                    }
                }
                if self.prop == "C04" {
                    let mut m = Bytes::from(w.clone());
                    if let R::Panic(p) = self.decm(&mut m, false) {
                        self.violation("decoder panicked", &w, format!("chain nested {} deep: {}", n, p))
                    }
                }
            }
        }
    }

    // ---- C05 -----------------------------------------------------------------
    fn c05(&mut self) {
        self.values(self.b.cap, self.b.hard, |r, e| {
            // every value respecting the maxima is accepted
            r.count(&e.wire);
            let x = r.dec(Bytes::copy_from_slice(&e.wire), false);
            let h = fnv(&r.sink.b);
            r.outcome(&x, h);
            if !matches!(x, R::Ok(_)) {
                let d = format!("{} gave {}", show(&e.tok.b), x.show());
                return r.violation("value within the declared maxima rejected", &e.wire, d);
            }
            // no strict prefix is accepted
            // does something counted extend beyond this offset?
            let mut counted = vec![false; e.wire.len() + 1];
            for a in e.ann.iter().filter(|a| matches!(a.k, K::LenB { .. } | K::LenE { .. })) {
                // extents nest: anything already marked up to the end needs no second pass
                let (b, z) = (a.off + 4, a.end.min(e.wire.len() + 1));
                if b < z && !(counted[b] && counted[z - 1]) {
                    counted[b..z].iter_mut().for_each(|x| *x = true);
                }
            }
            for k in r.cuts(e.wire.len()) {
                r.prefix(e, k, counted[k]);
                if r.viol > 0 {
                    return;
                }
            }
            // counts written over a valid encoding
            let mut v = e.wire.clone();
            for a in r.lengths(e, 80) {
                let (n, max, elems) = match a.k {
                    K::LenB { n, max, .. } => (n, max, false),
                    K::LenE { n, max } => (n, max, true),
                    _ => continue,
                };
                let avail = (e.wire.len() - a.off - 4) as u32;
                let mut c = vec![
                    0x7fff_ffff,
                    0x8000_0000,
                    0xffff_ffff,
                    0xffff_fffc,
                    0x0001_0000,
                    avail + 1,
                    avail + 4,
                    avail + 5,
                    0x0100_0000,
                ];
                if !elems {
                    // payload bytes present, but not all of the padding
                    c.extend([avail, avail.wrapping_sub(1), avail.wrapping_sub(2)].iter().copied().filter(|x| {
                        *x <= avail && pad4(*x as usize) as u32 > avail && *x > n
                    }));
                }
                if let Some(m) = max {
                    c.extend([m.wrapping_add(1), m.wrapping_add(2), m.saturating_mul(2), m | 0x8000_0000]);
                    for b in 0..32 {
                        c.push(m | 1 << b);
                        c.push(m.wrapping_add(1 << b));
                    }
                }
                c.sort();
                c.dedup();
                for x in c {
                    let over = max.map_or(false, |m| x > m);
                    let beyond = x > avail;
                    let unpadded = !elems && pad4(x as usize) as u64 > avail as u64;
                    if x == n || !(over || beyond || unpadded) {
                        continue;
                    }
                    v[a.off..a.off + 4].copy_from_slice(&x.to_be_bytes());
                    // an oversized element count first reads elements from
                    // whatever follows; only the end of the input is then at fault
                    let strict = over || !elems || a.end == e.wire.len();
                    let d = format!(
                        "count {} at offset {} (declared maximum {:?}, {} bytes follow)",
                        x, a.off, max, avail
                    );
                    r.must_reject(&v, strict, &d);
                    if r.viol > 0 {
                        return;
                    }
                }
                v[a.off..a.off + 4].copy_from_slice(&e.wire[a.off..a.off + 4]);
            }
        });
        if self.viol == 0 {
            self.over();
        }
    }
    fn prefix(&mut self, e: &Enc<'_>, k: usize, counted: bool) {
        let p = &e.wire[..k];
        // inside something whose count says more bytes follow: the error is known
        self.must_reject(p, counted, &format!("strict prefix ({} of {} bytes) of a valid encoding", k, e.wire.len()));
    }
    fn must_reject(&mut self, v: &[u8], strict: bool, why: &str) {
        self.count(v);
        self.st.transitions += 1;
        let b = Bytes::copy_from_slice(v);
        for fam in 0..2 {
            let x = if fam == 0 {
                self.dec(b.clone(), false)
            } else {
                let mut m = b.clone();
                self.decm(&mut m, false)
            };
            self.outcome(&x, 0);
            match x {
                R::Err(ErrK::Len) => {}
                R::Err(_) if !strict => {}
                R::Panic(_) if false => {}
                o => {
                    let d = format!("{}: {}, expected {}", why, o.show(), if strict { "Err(InvalidLength)" } else { "Err" });
                    return self.violation("length not enforced", v, d);
                }
            }
        }
    }
    /// For each bounded declarator met while encoding, the same value with
    /// max+1 (and 2*max+1) units actually present.
    fn over(&mut self) {
        let cfg = self.b.cfg.clone();
        let sem = self.sem;
        let def = self.ops.def;
        // choice prefixes: default plus each single deviation
        let mut k = 0;
        let caps = if self.tier == "thorough" { 400 } else { 40 };
        let md = self.b.max_dev;
        let mut enc = OverEnc { e: Enc::new(sem, &cfg) };
        let mut first_execution = true;
        explore(md, caps, caps, |ch| {
            enc.e.reset();
            enc.e.def(def, ch, 0, 0);
            let trace: Vec<u16> = ch.trace.iter().map(|x| x.0).collect();
            let lens: Vec<(usize, Ann)> = enc
                .e
                .ann
                .iter()
                .enumerate()
                .filter(|(_, a)| matches!(a.k, K::LenB { max: Some(_), .. } | K::LenE { max: Some(_), .. }))
                .map(|(i, a)| (i, a.clone()))
                .collect();
            let _ = trace;
            let first = std::mem::take(&mut first_execution);
            let keep = (self.work() * 4 / (enc.e.wire.len() + 1) / 2).max(3);
            let all = lens.len();
            for (at, (_, a)) in lens.into_iter().enumerate() {
                if at >= keep && at + keep < all {
                    continue;
                }
                let (n, m, elems) = match a.k {
                    K::LenB { n, max: Some(m), .. } => (n, m, false),
                    K::LenE { n, max: Some(m) } => (n, m, true),
                    _ => continue,
                };
                if m > 70_000 {
                    continue;
                }
                let mut sizes = vec![m + 1, 2 * m + 2];
                if first || self.tier == "thorough" {
                    // the maximum in fewer bits
                    let unit = if elems { (a.end - a.off - 4).max(1) / n.max(1) as usize } else { 1 };
                    for b in 0..17u32 {
                        sizes.extend([m + (1 << b), m | 1 << b, 1 << b]);
                    }
                    sizes.retain(|x| *x > m && (*x as usize) * unit.max(1) <= if self.tier == "thorough" { 1 << 20 } else { 140_000 });
                    sizes.sort();
                    sizes.dedup();
                }
                for units in sizes {
                    let w = &enc.e.wire;
                    let mut v = w[..a.off].to_vec();
                    v.extend_from_slice(&units.to_be_bytes());
                    if !elems {
                        let c: Vec<u8> = (0..units).map(|i| b'a' + (i % 26) as u8).collect();
                        v.extend_from_slice(&c);
                        v.resize(pad4(v.len()), 0);
                    } else if n > 0 {
                        // repeat the encoded elements
                        let body = &w[a.off + 4..a.end];
                        let mut have = 0;
                        while have < units {
                            v.extend_from_slice(body);
                            have += n;
                        }
                    } else {
                        continue;
                    }
                    v.extend_from_slice(&w[pad4(a.end)..]);
                    k += 1;
                    self.must_reject(&v, true, &format!("{} units present, declared maximum {}", units, m));
                    if self.viol > 0 {
                        return false;
                    }
                }
            }
            true
        });
    }

    // ---- C06 -----------------------------------------------------------------
    fn expect_err(&mut self, v: &[u8], want: ErrK, why: &str) {
        self.count(v);
        self.st.transitions += 1;
        let b = Bytes::copy_from_slice(v);
        for fam in 0..2 {
            let x = if fam == 0 {
                self.dec(b.clone(), false)
            } else {
                let mut m = b.clone();
                self.decm(&mut m, false)
            };
            self.outcome(&x, 0);
            match &x {
                R::Err(e) if *e == want => {}
                o => {
                    let d = format!("{}: {}, expected Err({:?})", why, o.show(), want);
                    return self.violation("undeclared value not rejected with its error", v, d);
                }
            }
        }
    }
    fn undeclared(decl: &[i128], thorough: bool) -> Vec<u32> {
        let mut c: Vec<u32> = (0..40).collect();
        c.extend([0x7f, 0x80, 0xff, 0x100, 0x101, 0xffff, 0x10000, 0x10001, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_ffff, 0xffff_fffe]);
        for d in decl {
            let d = *d as u32;
            c.extend([d.wrapping_add(1), d.wrapping_sub(1), d.wrapping_neg(), !d, d.swap_bytes(), d.wrapping_mul(2)]);
            for b in 0..32 {
                c.push(d ^ 1 << b);
            }
        }
        if thorough {
            for i in 0..32 {
                for j in 0..=i {
                    c.push(1u32 << i | 1u32 << j);
                    c.push(!(1u32 << i | 1u32 << j));
                }
            }
            c.extend(40..2000);
        }
        c.sort();
        c.dedup();
        c.retain(|x| !decl.contains(&(*x as i128)) && !decl.contains(&(*x as i32 as i128)));
        c
    }
    fn c06(&mut self) {
        self.values(self.b.cap, self.b.hard, |r, e| {
            // every declared discriminant selects its own arm
            r.count(&e.wire);
            for fam in 0..2 {
                let x = if fam == 0 {
                    r.dec(Bytes::copy_from_slice(&e.wire), false)
                } else {
                    let mut b = Bytes::copy_from_slice(&e.wire);
                    let x = r.decm(&mut b, false);
                    r.sink.b = r.sink2.b.clone();
                    x
                };
                let h = fnv(&r.sink.b);
                r.outcome(&x, h);
                if !matches!(x, R::Ok(_)) || r.sink.b != e.tok.b {
                    let d = format!("expected {} got {} {}", show(&e.tok.b), x.show(), show(&r.sink.b));
                    return r.violation("declared discriminants do not select the declared arms", &e.wire, d);
                }
            }
        });
        if self.viol > 0 {
            return;
        }
        let thorough = self.tier == "thorough";
        let mc = self.b.mut_cap;
        self.values(mc, mc, |r, e| {
            let mut v = e.wire.clone();
            let na = e.ann.len();
            for (nth, a) in e.ann.iter().enumerate() {
                // of many, the first, the last and some between
                if na > 60 && nth >= 40 && nth + 15 < na && nth * 8 / na == (nth - 1) * 8 / na {
                    continue;
                }
                let sem = r.sem;
                match &a.k {
                    K::Bool => {
                        for x in Self::undeclared(&[0, 1], thorough) {
                            v[a.off..a.off + 4].copy_from_slice(&x.to_be_bytes());
                            r.expect_err(&v, ErrK::Bool, &format!("boolean word {:#x} at {}", x, a.off));
                        }
                    }
                    K::Mark => {
                        for x in Self::undeclared(&[0, 1], thorough) {
                            v[a.off..a.off + 4].copy_from_slice(&x.to_be_bytes());
                            r.expect_err(&v, ErrK::Opt(x), &format!("optional marker {:#x} at {}", x, a.off));
                        }
                    }
                    K::Enum(i) => {
                        if let Def::Enum(m) = &sem.defs[*i].def {
                            let decl: Vec<i128> = m.iter().map(|x| x.1 as i128).collect();
                            for x in Self::undeclared(&decl, thorough) {
                                v[a.off..a.off + 4].copy_from_slice(&x.to_be_bytes());
                                r.expect_err(&v, ErrK::Variant(x as i32), &format!("enum value {} at {}", x as i32, a.off));
                            }
                        }
                    }
                    K::Disc(i) => {
                        if let Def::Union { disc, sel, default, .. } = &sem.defs[*i].def {
                            let decl: Vec<i128> = sel.iter().map(|x| x.0).collect();
                            match disc {
                                Disc::Bool => {
                                    for x in Self::undeclared(&[0, 1], thorough) {
                                        v[a.off..a.off + 4].copy_from_slice(&x.to_be_bytes());
                                        r.expect_err(&v, ErrK::Bool, &format!("boolean discriminant {:#x}", x));
                                    }
                                    if default.is_none() {
                                        for x in [0u32, 1] {
                                            if !decl.contains(&(x as i128)) {
                                                v[a.off..a.off + 4].copy_from_slice(&x.to_be_bytes());
                                                r.expect_err(&v, ErrK::Variant(x as i32), &format!("undeclared boolean discriminant {}", x));
                                            }
                                        }
                                    }
                                }
                                Disc::Enum(ei) => {
                                    if let Def::Enum(m) = &sem.defs[*ei].def {
                                        let mem: Vec<i128> = m.iter().map(|x| x.1 as i128).collect();
                                        for x in Self::undeclared(&mem, thorough) {
                                            v[a.off..a.off + 4].copy_from_slice(&x.to_be_bytes());
                                            r.expect_err(&v, ErrK::Variant(x as i32), &format!("enum discriminant {} is no member", x as i32));
                                        }
                                        if default.is_none() {
                                            for x in mem.iter().filter(|x| !decl.contains(x)) {
                                                v[a.off..a.off + 4].copy_from_slice(&(*x as u32).to_be_bytes());
                                                r.expect_err(&v, ErrK::Variant(*x as i32), &format!("enum discriminant {} has no arm", x));
                                            }
                                        }
                                    }
                                }
                                Disc::I32 | Disc::U32 => {
                                    if default.is_none() {
                                        for x in Self::undeclared(&decl, thorough) {
                                            v[a.off..a.off + 4].copy_from_slice(&x.to_be_bytes());
                                            r.expect_err(&v, ErrK::Variant(x as i32), &format!("discriminant {} has no arm", x));
                                        }
                                    }
                                }
                                Disc::I64 | Disc::U64 => {
                                    if default.is_none() {
                                        let mut c: Vec<u64> = Self::undeclared(&decl, false).iter().map(|x| *x as u64).collect();
                                        for d in &decl {
                                            for b in 0..64 {
                                                c.push(*d as u64 ^ 1 << b);
                                            }
                                        }
                                        for x in c {
                                            let sx = if *disc == Disc::I64 { x as i64 as i128 } else { x as i128 };
                                            if decl.contains(&sx) {
                                                continue;
                                            }
                                            v[a.off..a.off + 8].copy_from_slice(&x.to_be_bytes());
                                            r.expect_err(&v, ErrK::Variant(x as i32), &format!("discriminant {} has no arm", x));
                                        }
                                        v[a.off + 4..a.off + 8].copy_from_slice(&e.wire[a.off + 4..a.off + 8]);
                                    }
                                }
                            }
                        }
                    }
                    K::StrBytes => {
                        let bad: &[&[u8]] = &[
                            &[0xff],
                            &[0x80],
                            &[0xc0],
                            &[0xc3],
                            &[0xc3, 0x28],
                            &[0xc0, 0x80],
                            &[0xe2, 0x82],
                            &[0xe2, 0x28, 0xa1],
                            &[0xed, 0xa0, 0x80],
                            &[0xe0, 0x80, 0xaf],
                            &[0xf0, 0x9f, 0x98],
                            &[0xf4, 0x90, 0x80, 0x80],
                            &[0xf8, 0x88, 0x80, 0x80],
                            &[0xfe],
                            &[0xf5],
                            &[0xc1, 0xbf],
                        ];
                        for s in bad {
                            for at in 0..a.len {
                                if at + s.len() > a.len || (at > 4 && at + s.len() != a.len) {
                                    continue;
                                }
                                v[a.off + at..a.off + at + s.len()].copy_from_slice(s);
                                if std::str::from_utf8(&v[a.off..a.off + a.len]).is_err() {
                                    r.expect_err(&v, ErrK::Utf8, &format!("string bytes {}", hex(&v[a.off..a.off + a.len])));
                                }
                                v[a.off..a.off + a.len].copy_from_slice(&e.wire[a.off..a.off + a.len]);
                            }
                        }
                    }
                    _ => {}
                }
                v[a.off..a.off + a.len.min(4)].copy_from_slice(&e.wire[a.off..a.off + a.len.min(4)]);
                if r.viol > 0 {
                    return;
                }
            }
        });
        self.long_strings();
        self.all_short_strings();
    }
    /// Malformed characters at every part of strings of every magnitude.
    fn long_strings(&mut self) {
        const BAD: &[&[u8]] = &[&[0xff], &[0x80], &[0xc3], &[0xc3, 0x28], &[0xc0, 0x80], &[0xe2, 0x82], &[0xed, 0xa0, 0x80], &[0xf0, 0x9f, 0x98], &[0xf4, 0x90, 0x80, 0x80]];
        let th = self.tier == "thorough";
        let saved = self.b.cfg.clone();
        for len in [9u32, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1023, 1025, 4095, 4097, 16_385, 65_537] {
            if self.viol > 0 || (self.b.hard < 60 && len > 300) {
                break;
            }
            self.b.cfg.lens = vec![len];
            self.b.cfg.multibyte = false;
            let cap = if th { 8 } else { 1 };
            let mut seen = false;
            // only the default value is of interest, around the first base
            let (sem, def, cfg) = (self.sem, self.ops.def, self.b.cfg.clone());
            let mut enc = Enc::new(sem, &cfg);
            explore(1, cap, cap, |ch| {
                enc.reset();
                enc.def(def, ch, 0, 0);
                let mut v = enc.wire.clone();
                if v.len() > 400_000 {
                    return false;
                }
                let mut left = if th { 12 } else { 3 };
                for a in enc.ann.iter().filter(|a| matches!(a.k, K::StrBytes) && a.len == len as usize) {
                    seen = true;
                    if left == 0 {
                        break;
                    }
                    left -= 1;
                    for (k, s) in BAD.iter().enumerate() {
                        let mut at = vec![0, 1, 7, 8, 15, 16, a.len / 2, a.len - s.len() - 1, a.len - s.len()];
                        if len > 300 && !th {
                            at = vec![[0, 1, 8, a.len / 2][k % 4], a.len - s.len() - k % 2];
                        }
                        for i in 0..s.len() {
                            // across the boundaries of blocks
                            at.extend([64usize, 128, 256, 4096].iter().map(|b| b.wrapping_sub(i)));
                        }
                        at.retain(|x| x + s.len() <= a.len);
                        at.sort();
                        at.dedup();
                        for i in at {
                            v[a.off + i..a.off + i + s.len()].copy_from_slice(s);
                            if std::str::from_utf8(&v[a.off..a.off + a.len]).is_err() {
                                self.expect_err(&v, ErrK::Utf8, &format!("a string of {} bytes, {} at {}", len, hex(s), i));
                            }
                            v[a.off + i..a.off + i + s.len()].copy_from_slice(&enc.wire[a.off + i..a.off + i + s.len()]);
                        }
                    }
                }
                self.viol == 0
            });
            if !seen {
                break;
            }
        }
        self.b.cfg = saved;
    }
    /// If the type is nothing but one string, all strings of up to two bytes
    /// (and, thorough, three bytes with a multi-byte lead).
    fn all_short_strings(&mut self) {
        let only_str = match &self.sem.defs[self.ops.def].def {
            Def::New(T::Str(None)) => true,
            Def::Struct(f) => f.len() == 1 && f[0].1 == T::Str(None),
            _ => false,
        };
        if !only_str || self.viol > 0 {
            return;
        }
        let one = |r: &mut Self, s: &[u8]| {
            let mut v = (s.len() as u32).to_be_bytes().to_vec();
            v.extend_from_slice(s);
            v.resize(pad4(v.len()), 0);
            r.count(&v);
            let x = r.dec(Bytes::copy_from_slice(&v), false);
            let ok = std::str::from_utf8(s).is_ok();
            let good = match &x {
                R::Ok(_) => ok,
                R::Err(ErrK::Utf8) => !ok,
                _ => false,
            };
            if !good {
                let d = format!("string bytes {}: {}", hex(s), x.show());
                r.violation("UTF-8 acceptance", &v, d);
            }
        };
        for a in 0..=255u8 {
            one(self, &[a]);
            for b in 0..=255u8 {
                one(self, &[a, b]);
            }
        }
        // every sequence over the bytes at which the rules change
        const EDGES: &[u8] = &[0, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf8, 0xff];
        for &a in EDGES {
            for &b in EDGES {
                for &c in EDGES {
                    one(self, &[a, b, c]);
                    for &d in EDGES {
                        if a >= 0xe0 || d >= 0xc0 || self.tier == "thorough" {
                            one(self, &[a, b, c, d]);
                        }
                    }
                    if self.viol > 0 {
                        return;
                    }
                }
            }
        }
        let step: u32 = if self.tier == "thorough" { 1 } else { 5 };
        for a in 0xe0..=0xf5u8 {
            for bc in (0..65536u32).step_by(step as usize) {
                one(self, &[a, (bc >> 8) as u8, bc as u8]);
                if self.viol > 0 {
                    return;
                }
            }
        }
    }

    // ---- C09 -----------------------------------------------------------------
    /// Bytes that room for the declared maxima of everything reachable takes.
    fn maxima(&self) -> u64 {
        let mut seen = HashSet::new();
        let mut st = vec![self.ops.def];
        let mut sum = (0u64, self.smax as u64);
        fn walk(t: &T, sum: &mut (u64, u64), st: &mut Vec<usize>) {
            match t {
                T::Str(Some(m)) | T::OpVar(Some(m)) => sum.0 += *m as u64,
                T::Var(e, m) => {
                    if let Some(m) = m {
                        sum.0 += *m as u64 * sum.1
                    }
                    walk(e, sum, st)
                }
                T::Fix(e, _) | T::Opt(e) => walk(e, sum, st),
                T::Ref(i) => st.push(*i),
                _ => {}
            }
        }
        while let Some(i) = st.pop() {
            if seen.insert(i) {
                for t in Sem::parts(&self.sem.defs[i].def) {
                    walk(t, &mut sum, &mut st)
                }
            }
        }
        sum.0
    }
    fn alloc(&mut self, v: &[u8], maxima: u64) {
        self.count(v);
        let b = Bytes::copy_from_slice(v);
        self.crumb.set(self.ops.spec, self.ops.def, 4, v);
        let ops = self.ops;
        match catch_unwind(AssertUnwindSafe(|| (ops.alloc)(&b))) {
            Ok((n1, n2)) => {
                let s = self.smax as u64;
                let len = v.len() as u64;
                // each count can take room for its maximum once; in a recursive
                // type once per level
                let levels = if self.sem.defs[self.ops.def].recursive { 1 + len / 4 } else { 4 };
                let bound = 1024 + 16 * s * (len + 4) + maxima.saturating_mul(levels);
                self.st.outcomes.insert(n1);
                self.st.accepted += 1;
                if n1 > bound || n2 > bound {
                    let d = format!(
                        "{} / {} bytes requested for {} bytes of input (largest value {} bytes, room for the declared maxima {})",
                        n1, n2, len, s, maxima
                    );
                    self.violation("allocation not bounded by the input", v, d);
                }
            }
            Err(p) => {
                ON.store(false, Relaxed);
                let m = pmsg(p);
                if m.contains("capacity overflow") {
                    self.violation("allocation not bounded by the input", v, format!("panic: {}", m));
                }
            }
        }
    }
    fn c09(&mut self) {
        let mx = self.maxima();
        let mc = self.b.mut_cap;
        self.values(mc, mc, |r, e| {
            r.alloc(&e.wire, mx);
            let mut v = e.wire.clone();
            for a in r.lengths(e, 40) {
                if let K::LenB { max, n, .. } | K::LenE { max, n } = a.k {
                    let mut c = vec![n + 1, 0x100, 0x1000, 0x10000, 0x100000, 0x1000000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffc, 0xffff_ffff];
                    if let Some(m) = max {
                        c.extend([m, m.saturating_sub(1), m.saturating_add(1)]);
                    }
                    for x in c {
                        v[a.off..a.off + 4].copy_from_slice(&x.to_be_bytes());
                        r.alloc(&v, mx);
                        r.alloc(&v[..a.off + 4], mx);
                        if a.off + 8 <= v.len() {
                            r.alloc(&v[..a.off + 8], mx);
                        }
                        if r.viol > 0 {
                            return;
                        }
                    }
                    v[a.off..a.off + 4].copy_from_slice(&e.wire[a.off..a.off + 4]);
                }
            }
        });
        let n = self.b.seq_len;
        self.sequences(n, &[0, 1, 2, 5, 0x10000, 0x0100_0000, 0x7fff_ffff, 0xffff_ffff], 0, |r, v| r.alloc(v, mx));
        // growing inputs: nested prefixes repeated
        if self.viol == 0 {
            for n in [10u32, 50, 200] {
                if let Some((w, _)) = deep_value(self.sem, self.ops.def, n) {
                    if w.len() < 1 << 16 {
                        self.alloc(&w, mx);
                        for x in [0x100u32, 0x10000, 0xffff_ffff] {
                            // every count in the chain inflated
                            let v: Vec<u8> = w
                                .chunks(4)
                                .flat_map(|c| if c == [0, 0, 0, 1] { x.to_be_bytes().to_vec() } else { c.to_vec() })
                                .collect();
                            self.alloc(&v, mx);
                        }
                    }
                }
            }
            for w in [1u32, 2, 3, 16, 256, 1024] {
                for k in [16usize, 128, 512] {
                    let v: Vec<u8> = std::iter::repeat(w.to_be_bytes()).take(k).flatten().collect();
                    self.alloc(&v, mx);
                }
            }
        }
    }
}

struct OverEnc<'a> {
    e: Enc<'a>,
}

/// What strings may hold besides ASCII letters, good and bad.
const STRINGS: &[&[u8]] = &[
    &[0],
    &[0x7f],
    &[b'\n'],
    &[0x80],
    &[0xbf],
    &[0xc0],
    &[0xc3],
    &[0xff],
    &[0xf0],
    &[0xe2, 0x82],
    &[0xf0, 0x9f],
    &[0xc3, 0xa9],
    &[0xc3, 0x28],
    &[0xc0, 0x80],
    &[0xf0, 0x9f, 0x98],
    &[0xef, 0xbb, 0xbf],
    &[0xe2, 0x82, 0xac],
    &[0xed, 0xa0, 0x80],
    &[0xf0, 0x9f, 0x98, 0x80],
    &[0xf4, 0x90, 0x80, 0x80],
];

fn hexfull(b: &[u8]) -> String {
    use std::fmt::Write;
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}

/// Encoding and tokens of a value of `def` nested n recursive definitions deep.
pub fn deep_value(sem: &Sem, def: usize, n: u32) -> Option<(Vec<u8>, Vec<u8>)> {
    let mut w = vec![];
    let mut t = Sink::default();
    let mut budget = n as u64 * 64 + 1000;
    if deep_def(sem, def, n, &mut w, &mut t, &mut budget) {
        Some((w, t.b))
    } else {
        None
    }
}

fn rec_ty(sem: &Sem, t: &T) -> bool {
    match t {
        T::Ref(i) => sem.defs[*i].recursive,
        T::Fix(t, _) | T::Var(t, _) | T::Opt(t) => rec_ty(sem, t),
        _ => false,
    }
}

fn deep_ty(sem: &Sem, t: &T, n: u32, w: &mut Vec<u8>, k: &mut Sink, b: &mut u64) -> bool {
    use crate::tk;
    if *b == 0 {
        return false;
    }
    *b -= 1;
    match t {
        T::U32 | T::I32 | T::F32 => {
            w.extend_from_slice(&[0x40, 0, 0, 7]);
            k.t4(if *t == T::U32 { tk::U32 } else if *t == T::I32 { tk::I32 } else { tk::F32 }, 0x4000_0007)
        }
        T::U64 | T::I64 | T::F64 => {
            w.extend_from_slice(&[0x40, 0, 0, 0, 0, 0, 0, 9]);
            k.t8(if *t == T::U64 { tk::U64 } else if *t == T::I64 { tk::I64 } else { tk::F64 }, 0x4000_0000_0000_0009)
        }
        T::Bool => {
            w.extend_from_slice(&[0; 4]);
            k.t4(tk::BOOL, 0)
        }
        T::Str(_) => {
            w.extend_from_slice(&[0; 4]);
            k.bytes(tk::STR, &[])
        }
        T::OpVar(_) => {
            w.extend_from_slice(&[0; 4]);
            k.bytes(tk::OP, &[])
        }
        T::OpFix(l) => {
            let d = vec![1u8; *l as usize];
            w.extend_from_slice(&d);
            w.resize(pad4(w.len()), 0);
            k.bytes(tk::OP, &d)
        }
        T::Fix(e, l) => {
            for i in 0..*l {
                if !deep_ty(sem, e, if i == 0 { n } else { 0 }, w, k, b) {
                    return false;
                }
            }
        }
        T::Var(e, m) => {
            let c = (n > 0 && rec_ty(sem, e) && *m != Some(0)) as u32;
            w.extend_from_slice(&c.to_be_bytes());
            k.t4(tk::LEN, c);
            if c == 1 {
                return deep_ty(sem, e, n, w, k, b);
            }
        }
        T::Opt(e) => {
            let c = (n > 0 && rec_ty(sem, e)) as u32;
            w.extend_from_slice(&c.to_be_bytes());
            k.t4(tk::OPT, c);
            if c == 1 {
                return deep_ty(sem, e, n, w, k, b);
            }
        }
        T::Ref(i) => return deep_def(sem, *i, n, w, k, b),
    }
    true
}

fn deep_def(sem: &Sem, i: usize, n: u32, w: &mut Vec<u8>, k: &mut Sink, b: &mut u64) -> bool {
    let d = &sem.defs[i];
    let n1 = if d.recursive { n.saturating_sub(1) } else { n };
    match &d.def {
        Def::Enum(m) => {
            w.extend_from_slice(&(m[0].1 as u32).to_be_bytes());
            k.mem(0)
        }
        Def::New(t) => return deep_ty(sem, t, n1, w, k, b),
        Def::Struct(f) => {
            // only the last recursive part is nested, the others stay minimal
            let last = f.iter().rposition(|x| rec_ty(sem, &x.1));
            for (j, (_, t)) in f.iter().enumerate() {
                if !deep_ty(sem, t, if Some(j) == last { n1 } else { 0 }, w, k, b) {
                    return false;
                }
            }
        }
        Def::Union { disc, vars, sel, .. } => {
            let pick = if n1 > 0 {
                sel.iter().find(|s| vars[s.1].body.as_ref().map_or(false, |t| rec_ty(sem, t)))
            } else {
                None
            }
            .or_else(|| sel.iter().min_by_key(|s| vars[s.1].body.as_ref().map_or(0, |t| sem.ty_height(t))));
            let (v, x) = match pick {
                Some(p) => *p,
                None => return false,
            };
            if matches!(disc, Disc::I64 | Disc::U64) {
                w.extend_from_slice(&(v as u64).to_be_bytes())
            } else {
                w.extend_from_slice(&(v as u32).to_be_bytes())
            }
            k.var(x as u32);
            if let Some(t) = &vars[x].body {
                return deep_ty(sem, t, n1, w, k, b);
            }
        }
    }
    true
}

// ---- entry point of a shard -----------------------------------------------------

pub fn shard_main(all: &[&[TypeOps]]) {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match a[1].as_str() {
        // run PROP TIER SET OUT CRUMB [skip-type,...]
        "run" => {
            let (prop, tier, set, out, crumb) =
                (a[2].clone(), a[3].clone(), a[4].clone(), a[5].clone(), a[6].clone());
            let skip: HashSet<(usize, usize)> = a
                .get(7)
                .map(|s| {
                    s.split(',')
                        .filter(|x| !x.is_empty())
                        .map(|x| {
                            let (p, q) = x.split_once(':').unwrap();
                            (p.parse().unwrap(), q.parse().unwrap())
                        })
                        .collect()
                })
                .unwrap_or_default();
            watchdog();
            // a stack of the usual main-thread size
            std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, || run(all, &prop, &tier, &set, &out, &crumb, &skip))
                    .unwrap()
                    .join()
                    .unwrap_or_else(|p| {
                        eprintln!("harness panic: {}", pmsg(p));
                        std::process::exit(70)
                    })
            });
        }
        // deep SPEC DEF DEPTH SET TIER: exit 0 if decoding such a chain returns
        "deep" => {
            let (sp, df, n): (usize, usize, u32) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
            let specs = crate::universe::set(&a[5], &a[6]);
            let sem = resolve(&specs[sp]);
            let w = std::thread::Builder::new()
                .stack_size(8 << 30)
                .spawn(move || deep_value(&sem, df, n).map(|x| x.0))
                .unwrap()
                .join()
                .unwrap()
                .expect("not a recursive type");
            let ops = all.iter().flat_map(|x| x.iter()).find(|o| o.spec == sp && o.def == df).unwrap();
            // depths that must work get room for the frames of unoptimised code
            let h = std::thread::Builder::new()
                .stack_size(if n <= 10_000 { 32 << 20 } else { 8 << 20 })
                .spawn({
                    let ops = ops as *const TypeOps as usize;
                    move || {
                        let ops = unsafe { &*(ops as *const TypeOps) };
                        let b = Bytes::from(w);
                        let _ = catch_unwind(AssertUnwindSafe(|| (ops.alloc)(&b)));
                    }
                })
                .unwrap();
            h.join().unwrap();
        }
        // one SPEC DEF HEX SET TIER: show what the decoders do with one input
        "one" => {
            let (sp, df): (usize, usize) = (a[2].parse().unwrap(), a[3].parse().unwrap());
            let v = unhex(&a[4]);
            let specs = crate::universe::set(&a[5], &a[6]);
            let sem = resolve(&specs[sp]);
            let ops = all.iter().flat_map(|x| x.iter()).find(|o| o.spec == sp && o.def == df).unwrap();
            println!("type {} input {} bytes", sem.defs[df].name, v.len());
            let rf = refdec(&sem, df, &v);
            println!("reference        : {:?} {}", rf.res, show(&rf.tok));
            let mut s = Sink { wire: true, ..Sink::default() };
            let r = catch_unwind(AssertUnwindSafe(|| (ops.dec)(Bytes::copy_from_slice(&v), &mut s)));
            println!("TryFrom<Bytes>   : {:?} (Ok holds wire_size) {}", r.map_err(pmsg), show(&s.b));
            let mut s = Sink { wire: true, ..Sink::default() };
            let mut b = Bytes::copy_from_slice(&v);
            let r = catch_unwind(AssertUnwindSafe(|| (ops.decm)(&mut b, &mut s)));
            println!("TryFrom<&mut ..> : {:?} {} left {}", r.map_err(pmsg), show(&s.b), b.len());
            let b = Bytes::copy_from_slice(&v);
            let r = catch_unwind(AssertUnwindSafe(|| (ops.alloc)(&b)));
            println!("allocated        : {:?}", r.map_err(pmsg));
        }
        x => panic!("unknown mode {}", x),
    }
}

fn watchdog() {
    std::thread::spawn(|| {
        let mut last = u64::MAX;
        let mut same = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let s = SEQ.load(Relaxed);
            if s == last && s > 0 {
                same += 1;
            } else {
                same = 0;
            }
            last = s;
            if same >= 60 {
                // 30 s inside one call: the crumb file names it
                std::process::exit(71);
            }
        }
    });
}

fn run(all: &[&[TypeOps]], prop: &str, tier: &str, set: &str, out: &str, crumb: &str, skip: &HashSet<(usize, usize)>) {
    let specs = crate::universe::set(set, tier);
    let f = std::fs::File::create(out).unwrap();
    let mut run: Option<Run<'_>> = None;
    let mut outf = Some(std::io::BufWriter::new(f));
    let mut cr = Some(Crumb::open(crumb));
    for sp in all {
        if sp.is_empty() {
            continue;
        }
        let sid = sp[0].spec;
        let sem: &'static Sem = Box::leak(Box::new(resolve(&specs[sid])));
        let spec: &Spec = &specs[sid];
        // SAFETY of lifetimes: specs outlives run
        let spec: &'static Spec = Box::leak(Box::new(spec.clone()));
        let smax = |def: usize| {
            // the largest value reachable
            let mut seen = HashSet::new();
            let mut st = vec![def];
            while let Some(i) = st.pop() {
                if seen.insert(i) {
                    Sem::parts(&sem.defs[i].def).iter().for_each(|t| Sem::refs(t, &mut st));
                }
            }
            sp.iter().filter(|o| seen.contains(&o.def)).map(|o| o.size_of).max().unwrap_or(8).max(32)
        };
        for o in sp.iter() {
            if skip.contains(&(o.spec, o.def)) {
                continue;
            }
            if !crate::universe::wanted(prop, spec, sem, o.def) {
                continue;
            }
            let mut r = match run.take() {
                None => Run {
                    prop,
                    tier,
                    out: outf.take().unwrap(),
                    crumb: cr.take().unwrap(),
                    tick: 0,
                    st: Stats { min_levels: 99, ..Stats::default() },
                    b: budget(prop, tier),
                    ops: o,
                    sem,
                    spec,
                    viol: 0,
                    total_viol: 0,
                    seen: HashSet::new(),
                    sink: Sink::default(),
                    sink2: Sink::default(),
                    smax: 0,
                    samples: 0,
                    sample_at: 3,
                    spent: 0,
                },
                Some(r) => r,
            };
            r.ops = o;
            r.sem = sem;
            r.spec = spec;
            r.smax = smax(o.def);
            r.viol = 0;
            r.spent = 0;
            r.seen.clear();
            r.st.types += 1;
            let before = r.st.executions;
            let t0 = std::time::Instant::now();
            let over = crate::universe::budget_override(prop, spec, tier);
            r.b = budget(prop, tier);
            if let Some(f) = over {
                f(&mut r.b);
            }
            match prop {
                "C01" => r.c01(),
                "C02" => r.c02(),
                "C03" => r.c03(),
                "C04" => r.c04(),
                "C05" => r.c05(),
                "C06" => r.c06(),
                "C08" => r.c08(),
                "C09" => r.c09(),
                _ => panic!("property {}", prop),
            }
            let n = r.st.executions - before;
            let l = format!("TYPE\t{}\t{}\t{}\t{}\n", o.spec, o.def, n, t0.elapsed().as_millis());
            r.out.write_all(l.as_bytes()).unwrap();
            if r.total_viol > 20 {
                run = Some(r);
                break;
            }
            run = Some(r);
        }
    }
    let (mut o, st) = match run {
        Some(r) => (r.out, r.st),
        None => (outf.take().unwrap(), Stats::default()),
    };
    writeln!(
        o,
        "STAT\texecutions={}\tstates={}\ttransitions={}\ttypes={}\tcomplete={}\tlevels={}\toutcomes={}\taccepted={}\trejected={}\tvaried={}",
        st.executions,
        st.states,
        st.transitions,
        st.types,
        st.complete_types,
        st.min_levels,
        st.outcomes.len(),
        st.accepted,
        st.rejected,
        st.base_executions
    )
    .unwrap();
    writeln!(o, "DONE").unwrap();
    o.flush().unwrap();
}
