//! Reference RFC 4506 encoder (driven by choices) and decoder.
use crate::explore::Chooser;
use crate::sem::*;
use crate::tk::Sink;
use crate::util::mix;

#[derive(Clone, Debug, PartialEq)]
pub enum ErrK {
    Len,
    Utf8,
    Bool,
    Variant(i32),
    Opt(u32),
    Other(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    /// counted opaque / string
    LenB { n: u32, max: Option<u32>, string: bool },
    /// counted array
    LenE { n: u32, max: Option<u32> },
    Bool,
    Mark,
    Enum(usize),
    /// union discriminant of definition i (4 or 8 bytes)
    Disc(usize),
    Word,
    Wide,
    /// opaque payload bytes
    Payload,
    StrBytes,
    Pad,
}

#[derive(Clone, Debug)]
pub struct Ann {
    pub off: usize,
    pub len: usize,
    pub k: K,
    /// for lengths: one past the last byte counted (padding excluded)
    pub end: usize,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    /// payload lengths; the first is the default
    pub lens: Vec<u32>,
    /// array counts; the first is the default
    pub counts: Vec<u32>,
    /// take the declared maximum as an extra length/count if it is <= this
    pub max_len: u32,
    pub max_count: u32,
    /// number of boundary values tried for each integer/float leaf
    pub ints: usize,
    pub multibyte: bool,
    /// recursion depth after which no recursive alternative is offered
    pub max_rec: u32,
}

impl Cfg {
    pub fn quick() -> Cfg {
        Cfg {
            lens: vec![3, 0, 1, 2, 4, 5, 6, 7, 8],
            counts: vec![2, 0, 1, 3, 5],
            max_len: 64,
            max_count: 16,
            ints: 3,
            multibyte: true,
            max_rec: 4,
        }
    }
    pub fn thorough() -> Cfg {
        Cfg {
            lens: vec![3, 0, 1, 2, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 33],
            counts: vec![2, 0, 1, 3, 4, 5, 6, 7, 9],
            max_len: 300,
            max_count: 64,
            ints: 6,
            multibyte: true,
            max_rec: 6,
        }
    }
}

const MB: &[&str] = &["é", "€x", "a😀", "\0", "\u{7f}\u{80}\u{7ff}\u{800}", "\u{ffff}\u{10000}\u{10ffff}"];

pub struct Enc<'a> {
    pub sem: &'a Sem,
    pub cfg: &'a Cfg,
    pub wire: Vec<u8>,
    pub tok: Sink,
    /// (wire offset, length) of each opaque payload
    pub ops: Vec<(usize, usize)>,
    pub ann: Vec<Ann>,
    uniq: u64,
    nodes: u64,
}

impl<'a> Enc<'a> {
    pub fn new(sem: &'a Sem, cfg: &'a Cfg) -> Enc<'a> {
        Enc {
            sem,
            cfg,
            wire: vec![],
            tok: Sink::default(),
            ops: vec![],
            ann: vec![],
            uniq: 0,
            nodes: 0,
        }
    }
    pub fn reset(&mut self) {
        self.wire.clear();
        self.tok.clear();
        self.ops.clear();
        self.ann.clear();
        self.uniq = 0;
        self.nodes = 0;
    }
    pub fn build_tokens(&self) -> Vec<u8> {
        self.tok.b.clone()
    }
    fn note(&mut self, len: usize, k: K) -> usize {
        let off = self.wire.len();
        self.ann.push(Ann { off, len, k, end: off + len });
        self.ann.len() - 1
    }
    fn w4(&mut self, v: u32) {
        self.wire.extend_from_slice(&v.to_be_bytes())
    }
    fn w8(&mut self, v: u64) {
        self.wire.extend_from_slice(&v.to_be_bytes())
    }
    fn next(&mut self) -> u64 {
        self.uniq += 1;
        mix(self.uniq)
    }
    fn pad(&mut self, n: usize) {
        let k = pad4(n) - n;
        if k > 0 {
            self.note(k, K::Pad);
            for _ in 0..k {
                self.wire.push(0)
            }
        }
    }
    fn payload_len(&mut self, max: Option<u32>, ch: &mut Chooser, extra: usize) -> (usize, u32) {
        let m = max.unwrap_or(u32::MAX);
        let mut opts: Vec<u32> = self.cfg.lens.iter().copied().filter(|l| *l <= m).collect();
        if m <= self.cfg.max_len {
            for k in [m, m.saturating_sub(1)] {
                if !opts.contains(&k) {
                    opts.push(k)
                }
            }
        }
        let c = ch.vary(opts.len() + extra);
        (c, if c < opts.len() { opts[c] } else { u32::MAX - (c - opts.len()) as u32 })
    }
    fn content(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            // non-zero bytes so that padding is distinguishable from payload
            v.extend(self.next().to_be_bytes().iter().map(|b| b | 1))
        }
        v.truncate(n);
        v
    }
    fn text(&mut self, n: usize) -> String {
        self.content(n).iter().map(|b| (b'a' + b % 26) as char).collect()
    }
    fn recursive_ty(&self, t: &T) -> bool {
        match t {
            T::Ref(i) => self.sem.defs[*i].recursive,
            T::Fix(t, _) | T::Var(t, _) | T::Opt(t) => self.recursive_ty(t),
            _ => false,
        }
    }

    /// `rec`: number of recursive definitions currently being expanded;
    /// `lists`: number of enclosing counted arrays.
    pub fn gen(&mut self, t: &T, ch: &mut Chooser, rec: u32, lists: u32) {
        self.nodes += 1;
        match t {
            T::U32 | T::I32 => {
                let alts = [0x7fff_ffffu32, 0x8000_0000, 0xffff_ffff, 0, 1];
                let c = ch.vary(self.cfg.ints.min(alts.len() + 1));
                let d = self.next() as u32 | 0x4000_0000;
                let v = if c == 0 { d } else { alts[c - 1] };
                self.note(4, K::Word);
                self.w4(v);
                let tag = if *t == T::U32 { crate::tk::U32 } else { crate::tk::I32 };
                self.tok.t4(tag, v);
            }
            T::F32 => {
                let alts = [0x8000_0000u32, 0x7fc1_2345, 0x7f80_0000, 1, 0];
                let c = ch.vary(self.cfg.ints.min(alts.len() + 1));
                let d = 0x4000_0000 | (self.next() as u32 & 0x3fff_ffff);
                let d = if (d >> 23) & 0xff == 0xff { d & 0xbfff_ffff } else { d };
                let v = if c == 0 { d } else { alts[c - 1] };
                self.note(4, K::Word);
                self.w4(v);
                self.tok.t4(crate::tk::F32, v);
            }
            T::U64 | T::I64 => {
                let alts = [1u64 << 63, u64::MAX, 0x0000_0001_0000_0000, 0x7fff_ffff_ffff_ffff, 0xffff_ffff];
                let c = ch.vary(self.cfg.ints.min(alts.len() + 1));
                let d = self.next() | 0x4000_0000_0000_0000;
                let v = if c == 0 { d } else { alts[c - 1] };
                self.note(8, K::Wide);
                self.w8(v);
                let tag = if *t == T::U64 { crate::tk::U64 } else { crate::tk::I64 };
                self.tok.t8(tag, v);
            }
            T::F64 => {
                let alts = [1u64 << 63, 0x7ff8_0000_1234_5678, 0x7ff0_0000_0000_0000, 1, 0];
                let c = ch.vary(self.cfg.ints.min(alts.len() + 1));
                let d = 0x4000_0000_0000_0000 | (self.next() & 0x3fff_ffff_ffff_ffff);
                let d = if (d >> 52) & 0x7ff == 0x7ff { d & 0xbfff_ffff_ffff_ffff } else { d };
                let v = if c == 0 { d } else { alts[c - 1] };
                self.note(8, K::Wide);
                self.w8(v);
                self.tok.t8(crate::tk::F64, v);
            }
            T::Bool => {
                let v = 1 - ch.vary(2) as u32;
                self.note(4, K::Bool);
                self.w4(v);
                self.tok.t4(crate::tk::BOOL, v);
            }
            T::Str(max) => {
                let extra = if self.cfg.multibyte { MB.len() } else { 0 };
                let (_, n) = self.payload_len(*max, ch, extra);
                let s = if n > u32::MAX - 100 && max.map_or(true, |m| m < u32::MAX - 100) || (n as usize > 1 << 25) {
                    let s = MB[(u32::MAX - n) as usize % MB.len()];
                    if s.len() as u64 <= max.unwrap_or(u32::MAX) as u64 {
                        s.to_string()
                    } else {
                        String::new()
                    }
                } else {
                    self.text(n as usize)
                };
                let n = s.len();
                let a = self.note(4, K::LenB { n: n as u32, max: *max, string: true });
                self.w4(n as u32);
                if n > 0 {
                    self.note(n, K::StrBytes);
                }
                self.wire.extend_from_slice(s.as_bytes());
                self.ann[a].end = self.wire.len();
                self.pad(n);
                self.tok.bytes(crate::tk::STR, s.as_bytes());
            }
            T::OpVar(max) => {
                let (_, n) = self.payload_len(*max, ch, 0);
                let d = self.content(n as usize);
                let a = self.note(4, K::LenB { n, max: *max, string: false });
                self.w4(n);
                self.payload(&d);
                self.ann[a].end = self.wire.len();
                self.pad(d.len());
            }
            T::OpFix(n) => {
                let d = self.content(*n as usize);
                self.payload(&d);
                self.pad(d.len());
            }
            T::Fix(t, n) => {
                for _ in 0..*n {
                    self.gen(t, ch, rec, lists);
                }
            }
            T::Var(e, max) => {
                let m = max.unwrap_or(u32::MAX);
                let n = if self.recursive_ty(e) && rec >= self.cfg.max_rec {
                    0
                } else {
                    let base: &[u32] = &self.cfg.counts;
                    let mut opts: Vec<u32> = base.iter().copied().filter(|l| *l <= m).collect();
                    if self.recursive_ty(e) && rec >= 2 {
                        opts.retain(|x| *x <= 2);
                        opts.sort();
                    } else if lists >= 2 {
                        // nested three deep: keep the default small
                        opts.retain(|x| *x <= 3);
                        if lists >= 3 {
                            opts.sort_by_key(|x| if *x == 1 { 0 } else { 1 + *x });
                        }
                    }
                    if m <= self.cfg.max_count && lists == 0 && rec == 0 && !opts.contains(&m) {
                        opts.push(m);
                    }
                    if opts.is_empty() {
                        opts.push(0);
                    }
                    opts[ch.choose(opts.len())]
                };
                let a = self.note(4, K::LenE { n, max: *max });
                self.w4(n);
                self.tok.t4(crate::tk::LEN, n);
                for _ in 0..n {
                    self.gen(e, ch, rec, lists + 1);
                }
                self.ann[a].end = self.wire.len();
            }
            T::Opt(e) => {
                let r = self.recursive_ty(e);
                let some = if r && rec >= self.cfg.max_rec {
                    false
                } else if r && rec >= 2 {
                    ch.choose(2) == 1
                } else if r {
                    ch.choose(2) == 0
                } else {
                    ch.vary(2) == 0
                };
                self.note(4, K::Mark);
                self.w4(some as u32);
                self.tok.t4(crate::tk::OPT, some as u32);
                if some {
                    self.gen(e, ch, rec, lists);
                }
            }
            T::Ref(i) => self.def(*i, ch, rec, lists),
        }
    }
    fn payload(&mut self, d: &[u8]) {
        if !d.is_empty() {
            self.note(d.len(), K::Payload);
        }
        self.ops.push((self.wire.len(), d.len()));
        self.wire.extend_from_slice(d);
        self.tok.bytes(crate::tk::OP, d);
    }
    pub fn def(&mut self, i: usize, ch: &mut Chooser, rec: u32, lists: u32) {
        let sem = self.sem;
        let d = &sem.defs[i];
        let rec = rec + d.recursive as u32;
        match &d.def {
            Def::Enum(m) => {
                let c = ch.vary(m.len());
                self.note(4, K::Enum(i));
                self.w4(m[c].1 as u32);
                self.tok.mem(c as u32);
            }
            Def::Struct(f) => {
                for (_, t) in f {
                    self.gen(t, ch, rec, lists)
                }
            }
            Def::New(t) => self.gen(t, ch, rec, lists),
            Def::Union { disc, vars, sel, default } => {
                // alternatives: (variant, discriminant value)
                let mut alts: Vec<(usize, i128)> = sel.iter().map(|(v, k)| (*k, *v)).collect();
                if let Some(dv) = default {
                    for v in self.default_discs(disc, sel) {
                        alts.push((*dv, v));
                    }
                }
                if d.recursive && rec >= 2 {
                    let h = |k: &usize| vars[*k].body.as_ref().map_or(0, |t| sem.ty_height(t));
                    alts.sort_by_key(|(k, _)| h(k));
                    if rec > self.cfg.max_rec {
                        alts.truncate(1);
                    }
                }
                let (k, v) = alts[if d.recursive { ch.choose(alts.len()) } else { ch.vary(alts.len()) }];
                let wide = matches!(disc, Disc::I64 | Disc::U64);
                self.note(if wide { 8 } else { 4 }, K::Disc(i));
                if wide {
                    self.w8(v as u64)
                } else {
                    self.w4(v as u32)
                }
                self.tok.var(k as u32);
                if let Some(t) = &vars[k].body {
                    self.gen(t, ch, rec, lists)
                }
            }
        }
    }
    /// Discriminant values (valid for the type) that select the default arm.
    pub fn default_discs(&self, disc: &Disc, sel: &[(i128, usize)]) -> Vec<i128> {
        let used = |v: i128| sel.iter().any(|s| s.0 == v);
        let cand: Vec<i128> = match disc {
            Disc::Bool => vec![0, 1],
            Disc::Enum(e) => match &self.sem.defs[*e].def {
                Def::Enum(m) => m.iter().map(|x| x.1 as i128).collect(),
                _ => unreachable!(),
            },
            Disc::I32 => vec![1000, 0, 1, 2, i32::MAX as i128, -1, i32::MIN as i128],
            Disc::U32 => vec![1000, 0, 1, 2, i32::MAX as i128, 1 << 31, u32::MAX as i128],
            Disc::I64 => vec![1000, 0, 1, i64::MAX as i128, -1, i64::MIN as i128, 1 << 32, (1 << 32) + 1],
            Disc::U64 => vec![1000, 0, 1, u64::MAX as i128, 1 << 63, 1 << 32, (1 << 32) + 1],
        };
        let mut o: Vec<i128> = vec![];
        for v in cand {
            if !used(v) && !o.contains(&v) {
                o.push(v)
            }
        }
        o
    }
}

// ---- reference decoder ------------------------------------------------------

pub struct Dec<'a> {
    pub sem: &'a Sem,
    pub buf: &'a [u8],
    pub pos: usize,
    pub tok: Sink,
    pub ops: Vec<(usize, usize)>,
    /// offset of the item that was being read when the error was found
    pub errpos: usize,
    pub depth: u32,
}

impl<'a> Dec<'a> {
    pub fn new(sem: &'a Sem, buf: &'a [u8]) -> Dec<'a> {
        Dec { sem, buf, pos: 0, tok: Sink::default(), ops: vec![], errpos: 0, depth: 0 }
    }
    fn need(&mut self, n: usize) -> Result<(), ErrK> {
        if self.buf.len() - self.pos < n {
            self.errpos = self.pos;
            Err(ErrK::Len)
        } else {
            Ok(())
        }
    }
    fn r4(&mut self) -> Result<u32, ErrK> {
        self.need(4)?;
        let b = &self.buf[self.pos..];
        self.errpos = self.pos;
        self.pos += 4;
        Ok(u32::from_be_bytes([b[0], b[1], b[2], b[3]]))
    }
    fn r8(&mut self) -> Result<u64, ErrK> {
        self.need(8)?;
        let mut a = [0; 8];
        a.copy_from_slice(&self.buf[self.pos..self.pos + 8]);
        self.errpos = self.pos;
        self.pos += 8;
        Ok(u64::from_be_bytes(a))
    }
    fn raw(&mut self, n: usize) -> Result<&'a [u8], ErrK> {
        self.need(pad4(n))?;
        let s = &self.buf[self.pos..self.pos + n];
        self.pos += pad4(n);
        Ok(s)
    }
    fn counted(&mut self, max: Option<u32>) -> Result<&'a [u8], ErrK> {
        let n = self.r4()?;
        if n > max.unwrap_or(u32::MAX) {
            return Err(ErrK::Len);
        }
        self.raw(n as usize)
    }
    pub fn ty(&mut self, t: &T) -> Result<(), ErrK> {
        use crate::tk;
        match t {
            T::U32 => {
                let v = self.r4()?;
                self.tok.t4(tk::U32, v)
            }
            T::I32 => {
                let v = self.r4()?;
                self.tok.t4(tk::I32, v)
            }
            T::F32 => {
                let v = self.r4()?;
                self.tok.t4(tk::F32, v)
            }
            T::U64 => {
                let v = self.r8()?;
                self.tok.t8(tk::U64, v)
            }
            T::I64 => {
                let v = self.r8()?;
                self.tok.t8(tk::I64, v)
            }
            T::F64 => {
                let v = self.r8()?;
                self.tok.t8(tk::F64, v)
            }
            T::Bool => {
                let v = self.r4()?;
                if v > 1 {
                    return Err(ErrK::Bool);
                }
                self.tok.t4(tk::BOOL, v)
            }
            T::Str(m) => {
                let s = self.counted(*m)?;
                if std::str::from_utf8(s).is_err() {
                    self.errpos = self.pos;
                    return Err(ErrK::Utf8);
                }
                self.tok.bytes(tk::STR, s)
            }
            T::OpVar(m) => {
                let s = self.counted(*m)?;
                self.opq(s)
            }
            T::OpFix(n) => {
                let s = self.raw(*n as usize)?;
                self.opq(s)
            }
            T::Fix(t, n) => {
                for _ in 0..*n {
                    self.ty(t)?
                }
            }
            T::Var(t, m) => {
                let n = self.r4()?;
                if n > m.unwrap_or(u32::MAX) {
                    return Err(ErrK::Len);
                }
                self.tok.t4(tk::LEN, n);
                for _ in 0..n {
                    self.ty(t)?
                }
            }
            T::Opt(t) => {
                let v = self.r4()?;
                if v > 1 {
                    return Err(ErrK::Opt(v));
                }
                self.tok.t4(tk::OPT, v);
                if v == 1 {
                    self.ty(t)?
                }
            }
            T::Ref(i) => self.def(*i)?,
        }
        Ok(())
    }
    fn opq(&mut self, s: &'a [u8]) {
        self.ops.push((s.as_ptr() as usize - self.buf.as_ptr() as usize, s.len()));
        self.tok.bytes(crate::tk::OP, s)
    }
    pub fn def(&mut self, i: usize) -> Result<(), ErrK> {
        let sem = self.sem;
        match &sem.defs[i].def {
            Def::Enum(_) => {
                let k = self.enm(i)?.0;
                self.tok.mem(k as u32);
                Ok(())
            }
            Def::Struct(f) => {
                for (_, t) in f {
                    self.ty(t)?
                }
                Ok(())
            }
            Def::New(t) => self.ty(t),
            Def::Union { disc, vars, sel, default } => {
                let v: i128 = match disc {
                    Disc::I32 => self.r4()? as i32 as i128,
                    Disc::U32 => self.r4()? as i128,
                    Disc::I64 => self.r8()? as i64 as i128,
                    Disc::U64 => self.r8()? as i128,
                    Disc::Bool => {
                        let v = self.r4()?;
                        if v > 1 {
                            return Err(ErrK::Bool);
                        }
                        v as i128
                    }
                    Disc::Enum(e) => self.enm(*e)?.1 as i128,
                };
                let k = sel.iter().find(|s| s.0 == v).map(|s| s.1).or(*default);
                match k {
                    None => Err(ErrK::Variant(v as i32)),
                    Some(k) => {
                        self.tok.var(k as u32);
                        match &vars[k].body {
                            Some(t) => self.ty(t),
                            None => Ok(()),
                        }
                    }
                }
            }
        }
    }
    fn enm(&mut self, i: usize) -> Result<(usize, i32), ErrK> {
        let m = match &self.sem.defs[i].def {
            Def::Enum(m) => m,
            _ => unreachable!(),
        };
        let v = self.r4()? as i32;
        match m.iter().position(|x| x.1 == v) {
            Some(k) => Ok((k, v)),
            None => Err(ErrK::Variant(v)),
        }
    }
}

pub struct Ref {
    pub res: Result<usize, ErrK>,
    pub tok: Vec<u8>,
    pub ops: Vec<(usize, usize)>,
    pub errpos: usize,
}

pub fn refdec(sem: &Sem, def: usize, buf: &[u8]) -> Ref {
    let mut d = Dec::new(sem, buf);
    let r = d.def(def);
    Ref { res: r.map(|_| d.pos), tok: d.tok.b, ops: d.ops, errpos: d.errpos }
}
