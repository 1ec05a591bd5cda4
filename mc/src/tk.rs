//! Observation of generated values: every value is flattened to a byte string
//! of tokens (and can be rebuilt from one without decoding).
use fastxdr::bytes::Bytes;

pub const U32: u8 = 1;
pub const I32: u8 = 2;
pub const U64: u8 = 3;
pub const I64: u8 = 4;
pub const F32: u8 = 5;
pub const F64: u8 = 6;
pub const BOOL: u8 = 7;
pub const STR: u8 = 8;
pub const OP: u8 = 9;
pub const LEN: u8 = 10;
pub const OPT: u8 = 11;
pub const VAR: u8 = 12;
pub const MEM: u8 = 13;

#[derive(Default, Clone)]
pub struct Sink {
    pub b: Vec<u8>,
    /// (pointer, length) of each opaque payload, in order.
    pub ops: Vec<(usize, usize)>,
    /// call wire_size() on the decoded value
    pub wire: bool,
}

impl Sink {
    pub fn clear(&mut self) {
        self.b.clear();
        self.ops.clear();
    }
    pub fn t4(&mut self, tag: u8, v: u32) {
        self.b.push(tag);
        self.b.extend_from_slice(&v.to_le_bytes());
    }
    pub fn t8(&mut self, tag: u8, v: u64) {
        self.b.push(tag);
        self.b.extend_from_slice(&v.to_le_bytes());
    }
    pub fn bytes(&mut self, tag: u8, d: &[u8]) {
        self.t4(tag, d.len() as u32);
        self.b.extend_from_slice(d);
    }
    pub fn op(&mut self, d: &[u8]) {
        self.bytes(OP, d);
        self.ops.push((d.as_ptr() as usize, d.len()));
    }
    pub fn var(&mut self, i: u32) {
        self.t4(VAR, i);
    }
    pub fn mem(&mut self, i: u32) {
        self.t4(MEM, i);
    }
}

pub struct Source<'a> {
    pub b: &'a [u8],
}

impl<'a> Source<'a> {
    pub fn g4(&mut self, tag: u8) -> u32 {
        assert_eq!(self.b[0], tag, "token stream out of step");
        let v = u32::from_le_bytes([self.b[1], self.b[2], self.b[3], self.b[4]]);
        self.b = &self.b[5..];
        v
    }
    pub fn g8(&mut self, tag: u8) -> u64 {
        assert_eq!(self.b[0], tag, "token stream out of step");
        let mut a = [0; 8];
        a.copy_from_slice(&self.b[1..9]);
        self.b = &self.b[9..];
        u64::from_le_bytes(a)
    }
    pub fn bytes(&mut self, tag: u8) -> &'a [u8] {
        let n = self.g4(tag) as usize;
        let (a, r) = self.b.split_at(n);
        self.b = r;
        a
    }
}

/// Human readable form of a token string.
pub fn show(b: &[u8]) -> String {
    let mut s = Source { b };
    let mut o = String::new();
    while !s.b.is_empty() {
        let t = s.b[0];
        o.push_str(&match t {
            U32 => format!("u32:{} ", s.g4(t)),
            I32 => format!("i32:{} ", s.g4(t) as i32),
            U64 => format!("u64:{} ", s.g8(t)),
            I64 => format!("i64:{} ", s.g8(t) as i64),
            F32 => format!("f32:{:#x} ", s.g4(t)),
            F64 => format!("f64:{:#x} ", s.g8(t)),
            BOOL => format!("bool:{} ", s.g4(t)),
            STR => format!("str:{:?} ", String::from_utf8_lossy(s.bytes(t))),
            OP => format!("opaque:{} ", crate::util::hex(s.bytes(t))),
            LEN => format!("len:{} ", s.g4(t)),
            OPT => format!("opt:{} ", s.g4(t)),
            VAR => format!("variant#{} ", s.g4(t)),
            MEM => format!("member#{} ", s.g4(t)),
            _ => {
                o.push_str("?");
                break;
            }
        });
        if o.len() > 600 {
            o.push_str("...");
            break;
        }
    }
    o
}

pub trait Tk: Sized {
    fn put(&self, o: &mut Sink);
    fn take(i: &mut Source<'_>) -> Self;
}

macro_rules! tk4 {
    ($t:ty, $tag:expr, $to:expr, $from:expr, $p:ident, $g:ident) => {
        impl Tk for $t {
            fn put(&self, o: &mut Sink) {
                o.$p($tag, $to(*self))
            }
            fn take(i: &mut Source<'_>) -> Self {
                $from(i.$g($tag))
            }
        }
    };
}
tk4!(u32, U32, |x| x, |x| x, t4, g4);
tk4!(i32, I32, |x| x as u32, |x| x as i32, t4, g4);
tk4!(u64, U64, |x| x, |x| x, t8, g8);
tk4!(i64, I64, |x| x as u64, |x| x as i64, t8, g8);
tk4!(f32, F32, |x: f32| x.to_bits(), f32::from_bits, t4, g4);
tk4!(f64, F64, |x: f64| x.to_bits(), f64::from_bits, t8, g8);
tk4!(bool, BOOL, |x| x as u32, |x| x != 0, t4, g4);

impl Tk for String {
    fn put(&self, o: &mut Sink) {
        o.bytes(STR, self.as_bytes())
    }
    fn take(i: &mut Source<'_>) -> Self {
        String::from_utf8(i.bytes(STR).to_vec()).unwrap()
    }
}
impl Tk for Bytes {
    fn put(&self, o: &mut Sink) {
        o.op(self)
    }
    fn take(i: &mut Source<'_>) -> Self {
        Bytes::copy_from_slice(i.bytes(OP))
    }
}
impl<T: Tk> Tk for Vec<T> {
    fn put(&self, o: &mut Sink) {
        o.t4(LEN, self.len() as u32);
        for x in self {
            x.put(o)
        }
    }
    fn take(i: &mut Source<'_>) -> Self {
        let n = i.g4(LEN);
        (0..n).map(|_| T::take(i)).collect()
    }
}
impl<T: Tk, const N: usize> Tk for [T; N] {
    fn put(&self, o: &mut Sink) {
        for x in self {
            x.put(o)
        }
    }
    fn take(i: &mut Source<'_>) -> Self {
        std::array::from_fn(|_| T::take(i))
    }
}
impl<T: Tk> Tk for Option<Box<T>> {
    fn put(&self, o: &mut Sink) {
        match self {
            None => o.t4(OPT, 0),
            Some(b) => {
                o.t4(OPT, 1);
                b.put(o)
            }
        }
    }
    fn take(i: &mut Source<'_>) -> Self {
        if i.g4(OPT) == 0 {
            None
        } else {
            Some(Box::new(T::take(i)))
        }
    }
}
