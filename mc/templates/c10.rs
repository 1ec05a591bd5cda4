// Exhaustive check of the runtime embedded in every generated module (C10).
// Compiled by the driver together with a generated module included as `g`.
mod g {
    include!("s0.rs");
}
use fastxdr::bytes::{Bytes, BytesMut};
use g::xdr::*;
use std::convert::TryFrom;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

static EXEC: AtomicU64 = AtomicU64::new(0);
static OKS: AtomicU64 = AtomicU64::new(0);
static ERRS: AtomicU64 = AtomicU64::new(0);
static WORDS: AtomicU64 = AtomicU64::new(0);
static TRANS: AtomicU64 = AtomicU64::new(0);
static VIOLS: Mutex<Vec<(String, String, String)>> = Mutex::new(Vec::new());
static SAMPLES: Mutex<Vec<String>> = Mutex::new(Vec::new());

fn hex(b: &[u8]) -> String {
    let k = b.len().min(64);
    let mut s: String = b[..k].iter().map(|x| format!("{:02x}", x)).collect();
    if k < b.len() {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}
fn viol(kind: &str, input: String, detail: String) {
    let mut v = VIOLS.lock().unwrap();
    if v.len() < 200 && !v.iter().any(|x| x.0 == kind) {
        v.push((kind.to_string(), input, detail));
    }
}

fn pad(n: usize) -> usize {
    (n + 3) / 4 * 4
}

/// What must happen: Some((value, bytes the cursor moves)) or an Error.
type Want<V> = Option<(V, usize)>;

/// The ways the bytes of a call can be held. The last is for small buffers only.
const FORMS: [&str; 6] = ["at offset 3 of a shared buffer", "in a buffer of its own", "at offset 4 of a shared buffer", "frozen and split off", "at offset 1 of a shared buffer", "static"];

fn held(form: usize, data: &[u8]) -> Bytes {
    let within = |off: usize| {
        let mut whole = vec![0xEEu8; off];
        whole.extend_from_slice(data);
        whole.extend_from_slice(&[0, 0, 0, 1, 0, 0, 0, 0]);
        Bytes::from(whole).slice(off..off + data.len())
    };
    match form {
        0 => within(3),
        1 => Bytes::from(data.to_vec()),
        2 => within(4),
        3 => {
            let mut m = BytesMut::with_capacity(data.len() + 32);
            m.extend_from_slice(&[0xEE; 6]);
            m.extend_from_slice(data);
            m.extend_from_slice(&[0; 9]);
            let _ = m.split_to(6);
            m.split_to(data.len()).freeze()
        }
        4 => within(1),
        // outlives every value made from it: dropped at the end of `call`
        _ => Bytes::from_static(unsafe { std::mem::transmute::<&[u8], &'static [u8]>(data) }),
    }
}

/// One call of one reader per way to hold `data`: nothing else remains, and the
/// bytes around the view must not be looked at.
fn call<V: PartialEq + std::fmt::Debug, W: Into<V>>(
    kind: &str,
    what: &dyn Fn() -> String,
    data: &[u8],
    f: impl Fn(&mut Bytes) -> Result<W, Error>,
    want: Want<V>,
) {
    let forms = match data.len() {
        0..=256 => FORMS.len(),
        257..=10_000 => 4,
        _ => 2,
    };
    for form in 0..forms {
        EXEC.fetch_add(1, Relaxed);
        let view = held(form, data);
        let mut b = view.clone();
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut b).map(|w| w.into())));
        match (r, &want) {
            (Err(p), _) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                viol(&format!("{} panics", kind), hex(data), format!("{} with {} bytes remaining, {}: {}", what(), data.len(), FORMS[form], m));
            }
            (Ok(Err(_)), None) => {
                ERRS.fetch_add(1, Relaxed);
            }
            (Ok(Err(e)), Some((v, k))) => viol(
                &format!("{} rejects what is there", kind),
                hex(data),
                format!("{} with {} bytes remaining, {}: Err({:?}), expected {:?} and {} bytes consumed", what(), data.len(), FORMS[form], e, v, k),
            ),
            (Ok(Ok(v)), None) => viol(
                &format!("{} accepts what is not there", kind),
                hex(data),
                format!("{} with {} bytes remaining, {}: Ok({:?}), expected an Error", what(), data.len(), FORMS[form], v),
            ),
            (Ok(Ok(v)), Some((w, k))) => {
                let n = OKS.fetch_add(1, Relaxed);
                if v != *w {
                    viol(&format!("{} returns another value", kind), hex(data), format!("{} with {} bytes remaining, {}: {:?}, expected {:?}", what(), data.len(), FORMS[form], v, w));
                } else if b.len() + k != data.len() || (b.len() > 0 && b.as_ptr() != view[*k..].as_ptr()) || b[..] != data[*k..] {
                    viol(
                        &format!("{} does not advance by the padded size", kind),
                        hex(data),
                        format!("{} with {} bytes remaining, {}: {} bytes left, expected {}", what(), data.len(), FORMS[form], b.len(), data.len() - k),
                    );
                } else if n % 50021 == 17 {
                    let mut s = SAMPLES.lock().unwrap();
                    if s.len() < 6 {
                        s.push(format!("{} on {} = {:?}, {} bytes left", what(), hex(data), v, b.len()));
                    }
                }
            }
        }
    }
}

/// Bytes with values that tell every position apart.
fn fill(n: usize, seed: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(37).wrapping_add(seed) | 1).collect()
}
fn text(n: usize) -> Vec<u8> {
    // alternating one and two byte characters where they fit
    let mut v = vec![];
    let mut i = 0;
    while v.len() < n {
        if i % 3 == 1 && v.len() + 2 <= n {
            v.extend("é".as_bytes())
        } else {
            v.push(b'a' + (i % 26) as u8)
        }
        i += 1;
    }
    v
}

struct By(Vec<u8>);
impl PartialEq for By {
    fn eq(&self, o: &By) -> bool {
        self.0 == o.0
    }
}
impl std::fmt::Debug for By {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "bytes {}", hex(&self.0))
    }
}
impl From<Bytes> for By {
    fn from(b: Bytes) -> By {
        By(b.to_vec())
    }
}

// ---- array elements -----------------------------------------------------------

/// An element of K bytes.
#[derive(Debug, PartialEq, Clone)]
struct E<const K: usize>([u8; K]);
impl<const K: usize> TryFrom<Bytes> for E<K> {
    type Error = Error;
    fn try_from(b: Bytes) -> Result<Self, Error> {
        if b.len() < K {
            return Err(Error::InvalidLength);
        }
        let mut x = [0; K];
        x.copy_from_slice(&b[..K]);
        Ok(E(x))
    }
}
impl<const K: usize> WireSize for E<K> {
    fn wire_size(&self) -> usize {
        K
    }
}

/// An element whose size is in its first byte (1..).
#[derive(Debug, PartialEq, Clone)]
struct S(Vec<u8>);
impl TryFrom<Bytes> for S {
    type Error = Error;
    fn try_from(b: Bytes) -> Result<Self, Error> {
        if b.is_empty() || b.len() < b[0] as usize {
            return Err(Error::InvalidLength);
        }
        Ok(S(b[..b[0] as usize].to_vec()))
    }
}
impl WireSize for S {
    fn wire_size(&self) -> usize {
        self.0.len()
    }
}

fn array<T>(kind: &str, elems: &[(T, Vec<u8>)], n_max: usize)
where
    T: TryFrom<Bytes, Error = Error> + WireSize + PartialEq + std::fmt::Debug + Clone,
{
    for n in 0..=n_max {
        let mut body = vec![];
        let mut vals: Vec<T> = vec![];
        for i in 0..n {
            let (t, w) = &elems[i % elems.len()];
            vals.push(t.clone());
            body.extend_from_slice(w);
        }
        let size = pad(4 + body.len());
        let mut full = (n as u32).to_be_bytes().to_vec();
        full.extend_from_slice(&body);
        let mut d = full.clone();
        d.extend(fill(16, 0x80));
        for r in 0..=size + 8 {
            for m in 0..=n_max + 2 {
                // None, 0, 1, ...
                let max = if m == 0 { None } else { Some(m - 1) };
                TRANS.fetch_add(1, Relaxed);
                let ok = r >= size && max.map_or(true, |x| n <= x);
                let want = if ok { Some((vals.clone(), size)) } else { None };
                call::<Vec<T>, Vec<T>>(
                    kind,
                    &|| format!("read_variable_array of {} elements, max {:?}", n, max),
                    &d[..r],
                    |b| b.read_variable_array::<T>(max),
                    want,
                );
            }
        }
        // counts the input does not back, with and without a maximum that allows them
        for c in [n as u32 + 1, n as u32 + 2, 0x100, 0x1_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff] {
            for max in [None, Some(c as usize), Some(c as usize - 1), Some(n), Some(usize::MAX)] {
                TRANS.fetch_add(1, Relaxed);
                let mut d = c.to_be_bytes().to_vec();
                d.extend_from_slice(&body);
                call::<Vec<T>, Vec<T>>(kind, &|| format!("read_variable_array of {} elements, max {:?}, {} present", c, max, n), &d, |b| b.read_variable_array::<T>(max), None);
            }
        }
    }
}

/// Arrays around the sizes where representations of counts and lengths change.
fn long_array<T>(kind: &str, elems: &[(T, Vec<u8>)], sizes: &[usize])
where
    T: TryFrom<Bytes, Error = Error> + WireSize + PartialEq + std::fmt::Debug + Clone,
{
    for &n in sizes {
        let vals: Vec<T> = (0..n).map(|i| elems[i % elems.len()].0.clone()).collect();
        let mut d = (n as u32).to_be_bytes().to_vec();
        for i in 0..n {
            d.extend_from_slice(&elems[i % elems.len()].1);
        }
        let size = pad(d.len());
        d.truncate(size);
        d.extend(fill(size + 24 - d.len(), 0x80));
        for r in [size - 1, size, size + 1, size + 4, size + 7, d.len(), size / 2] {
            for max in [None, Some(n), Some(n - 1), Some(n + 1), Some(usize::MAX), Some(n & 0xff), Some(n & 0xffff)] {
                TRANS.fetch_add(1, Relaxed);
                let ok = r >= size && max.map_or(true, |x| n <= x);
                let want = if ok { Some((vals.clone(), size)) } else { None };
                call::<Vec<T>, Vec<T>>(kind, &|| format!("read_variable_array of {} elements, max {:?}", n, max), &d[..r], |b| b.read_variable_array::<T>(max), want);
            }
        }
        size_of_long(kind, &vals, size);
    }
}
fn size_of_long<T: WireSize + Clone>(kind: &str, vals: &[T], want: usize) {
    let v = vals.to_vec();
    size(kind, &|| format!("Vec of {} for {}", v.len(), kind), &v, want);
    size(kind, &|| format!("slice of {} for {}", v.len(), kind), &v[..], want - 4);
    let mut roomy = Vec::with_capacity(v.len() * 2 + 100);
    roomy.extend_from_slice(&v);
    size(kind, &|| format!("Vec of {} with room for more, for {}", v.len(), kind), &roomy, want);
    size(kind, &|| format!("Some(Box(Vec of {})) for {}", v.len(), kind), &Some(Box::new(v.clone())), want + 4);
}

/// What the bytes of a payload are makes no difference to an opaque, and only
/// UTF-8 or not to a string.
fn contents(deep: bool) {
    let one = |p: &[u8]| {
        let mut d = (p.len() as u32).to_be_bytes().to_vec();
        d.extend_from_slice(p);
        d.resize(pad(d.len()), 0);
        let n = d.len();
        // behind it: nothing, zeros, something else
        for tail in [&[][..], &[0, 0, 0, 0], &[0xef, 0xbb, 0xbf, 0x80, 0x0a]] {
            let mut e = d.clone();
            e.extend_from_slice(tail);
            TRANS.fetch_add(3, Relaxed);
            call("read_variable_bytes", &|| format!("read_variable_bytes of {}", hex(p)), &e, |b| b.read_variable_bytes(None), Some((By(p.to_vec()), n)));
            call("read_bytes", &|| format!("read_bytes({}) of {}", p.len(), hex(p)), &e[4..], |b| b.read_bytes(p.len()), Some((By(p.to_vec()), n - 4)));
            let want = String::from_utf8(p.to_vec()).ok().map(|s| (s, n));
            call::<String, String>("read_string", &|| format!("read_string of {}", hex(p)), &e, |b| b.read_string(Some(p.len())), want);
        }
    };
    for a in 0..=255u8 {
        one(&[a]);
        for b in 0..=255u8 {
            one(&[a, b]);
        }
    }
    const SOME: [u8; 22] = [0, 1, 9, 10, 13, 0x1a, 0x20, b'"', b'%', b'A', 0x7f, 0x80, 0x85, 0x9f, 0xa0, 0xbf, 0xc2, 0xe0, 0xed, 0xef, 0xf0, 0xff];
    for l in 3..=if deep { 5usize } else { 4 } {
        let m = SOME.len();
        for code in 0..m.pow(l as u32) {
            let mut k = code;
            let p: Vec<u8> = (0..l)
                .map(|_| {
                    let x = SOME[k % m];
                    k /= m;
                    x
                })
                .collect();
            one(&p);
        }
    }
    // every character, and each among others
    for c in (0..=0x10ffff).filter_map(char::from_u32) {
        let c32 = c as u32;
        if !deep && c32 > 0x2fff && c32 % 17 != 0 && c32 & 0xff < 0xf0 {
            continue;
        }
        let mut x = [0; 4];
        let e = c.encode_utf8(&mut x).as_bytes();
        one(e);
        one(&[b"ab", e, b"c"].concat());
    }
    // long payloads of one byte, and with one odd byte
    for n in [1usize, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 255, 256, 257, 4095, 4096, 4097] {
        for x in [0u8, 0xff, b' ', b'\n', b'a', 0x80] {
            let p = vec![x; n];
            one(&p);
            for y in [0u8, 0xff, b'\n', b'b'] {
                for at in [0, n / 2, n - 1] {
                    let mut p = p.clone();
                    p[at] = y;
                    one(&p);
                }
            }
        }
    }
}

fn opaques(n_max: usize) {
    for n in 0..=n_max {
        let p = fill(n, 3);
        let mut d = p.clone();
        d.extend(fill(24, 0x40));
        let size = pad(n);
        // fixed
        for r in 0..=n_max + 8 {
            if r > d.len() {
                break;
            }
            TRANS.fetch_add(1, Relaxed);
            let want = if r >= size { Some((By(p.clone()), size)) } else { None };
            call("read_bytes", &|| format!("read_bytes({})", n), &d[..r], |b| b.read_bytes(n), want);
        }
        // counted, opaque and string
        let t = text(n);
        for (str_, pay) in [(false, &p), (true, &t)] {
            let mut d = (n as u32).to_be_bytes().to_vec();
            d.extend_from_slice(pay);
            d.extend(if str_ { vec![b'z'; 24] } else { fill(24, 0x40) });
            let size = pad(4 + n);
            for r in 0..=n_max + 8 {
                if r > d.len() {
                    break;
                }
                for m in 0..=n_max + 2 {
                    let max = if m == 0 { None } else { Some(m - 1) };
                    TRANS.fetch_add(1, Relaxed);
                    let ok = r >= size && max.map_or(true, |x| n <= x);
                    if str_ {
                        let want = if ok { Some((String::from_utf8(pay.clone()).unwrap(), size)) } else { None };
                        call("read_string", &|| format!("read_string of {} bytes, max {:?}", n, max), &d[..r], |b| b.read_string(max), want);
                    } else {
                        let want = if ok { Some((By(pay.clone()), size)) } else { None };
                        call("read_variable_bytes", &|| format!("read_variable_bytes of {} bytes, max {:?}", n, max), &d[..r], |b| b.read_variable_bytes(max), want);
                    }
                }
            }
        }
    }
    // sizes around larger boundaries
    for n in [127usize, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65534, 65535, 65536, 65537, 1 << 20, (1 << 20) + 1] {
        let p = fill(n, 9);
        let size = pad(n);
        for r in (0..12usize).map(|k| size + 8 - k) {
            let mut d = p.clone();
            d.resize(r.max(n), 0x11);
            d.truncate(r);
            TRANS.fetch_add(1, Relaxed);
            let want = if r >= size { Some((By(p.clone()), size)) } else { None };
            call("read_bytes", &|| format!("read_bytes({})", n), &d, |b| b.read_bytes(n), want);
            for max in [None, Some(n - 1), Some(n), Some(n + 1), Some(usize::MAX), Some(0xffff_ffff)] {
                let mut e = (n as u32).to_be_bytes().to_vec();
                e.extend_from_slice(&d);
                TRANS.fetch_add(1, Relaxed);
                let ok = r >= size && max.map_or(true, |x| n <= x);
                let want = if ok { Some((By(p.clone()), size + 4)) } else { None };
                call("read_variable_bytes", &|| format!("read_variable_bytes of {} bytes, max {:?}", n, max), &e, |b| b.read_variable_bytes(max), want);
                let t = text(n);
                let mut e = (n as u32).to_be_bytes().to_vec();
                e.extend_from_slice(&t);
                e.resize(4 + r.max(n), b'z');
                e.truncate(4 + r);
                TRANS.fetch_add(1, Relaxed);
                let want = if ok { Some((String::from_utf8(t).unwrap(), size + 4)) } else { None };
                call("read_string", &|| format!("read_string of {} bytes, max {:?}", n, max), &e, |b| b.read_string(max), want);
            }
        }
    }
    // lengths nothing can back
    let huge: Vec<usize> = vec![
        usize::MAX,
        usize::MAX - 1,
        usize::MAX - 2,
        usize::MAX - 3,
        usize::MAX - 4,
        usize::MAX / 2,
        usize::MAX / 2 + 1,
        isize::MAX as usize,
        u32::MAX as usize,
        u32::MAX as usize - 3,
        u32::MAX as usize + 1,
        1 << 31,
        (1 << 31) - 1,
    ];
    for n in huge {
        for r in 0..=40usize {
            TRANS.fetch_add(1, Relaxed);
            call::<By, Bytes>("read_bytes", &|| format!("read_bytes({})", n), &fill(r, 0), |b| b.read_bytes(n), None);
        }
    }
    for n in [41u32, 0x100, 0x1_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffb, 0xffff_fffc, 0xffff_fffd, 0xffff_fffe, 0xffff_ffff] {
        for r in 0..=40usize {
            for max in [None, Some(n as usize - 1), Some(n as usize), Some(n as usize + 1), Some(usize::MAX), Some(0)] {
                let mut d = n.to_be_bytes().to_vec();
                d.extend(fill(r, 0));
                TRANS.fetch_add(2, Relaxed);
                call::<By, Bytes>("read_variable_bytes", &|| format!("read_variable_bytes of {} bytes, max {:?}", n, max), &d, |b| b.read_variable_bytes(max), None);
                call::<String, String>("read_string", &|| format!("read_string of {} bytes, max {:?}", n, max), &d, |b| b.read_string(max), None);
            }
        }
    }
}

/// Two or three reads in a row on one buffer: the cursor is where the next starts.
fn sequences(n_max: usize) {
    for a in 0..=n_max {
        for c in 0..=n_max {
            let (p, q) = (fill(a, 1), text(c));
            let mut d = (a as u32).to_be_bytes().to_vec();
            d.extend_from_slice(&p);
            d.resize(pad(d.len()), 0);
            d.extend_from_slice(&(c as u32).to_be_bytes());
            d.extend_from_slice(&q);
            d.resize(pad(d.len()), 0);
            d.extend_from_slice(&[1, 2, 3, 4]);
            d.extend_from_slice(&p);
            d.resize(pad(d.len()), 0);
            d.extend_from_slice(&[9, 8, 7, 6, 5, 4, 3, 2]);
            let len = d.len();
            TRANS.fetch_add(5, Relaxed);
            let want = Some(((By(p.clone()), String::from_utf8(q.clone()).unwrap(), 0x01020304u32, By(p.clone()), 0x0908070605040302u64), len));
            call(
                "reading in sequence",
                &|| format!("opaque<{}>, string<{}>, u32, opaque[{}], u64", a, c, a),
                &d,
                |b| {
                    let w = b.read_variable_bytes(Some(a))?;
                    let x = b.read_string(Some(c))?;
                    let y = b.read_u32()?;
                    let z = b.read_bytes(a)?;
                    let u = b.read_u64()?;
                    Ok((By::from(w), x, y, By::from(z), u))
                },
                want,
            );
        }
    }
}

macro_rules! scalar {
    ($name:literal, $f:ident, $n:literal, $bits:ty, $conv:expr, $words:expr) => {{
        for w in $words.iter().copied() {
            let w: $bits = w;
            let mut d = w.to_be_bytes().to_vec();
            d.extend(fill(8, 5));
            for r in 0..=$n + 8 {
                TRANS.fetch_add(1, Relaxed);
                let want = if r >= $n { Some((w, $n)) } else { None };
                call::<$bits, $bits>($name, &|| format!(concat!($name, " of {:#x}"), w), &d[..r], |b| b.$f().map($conv), want);
            }
        }
    }};
}

fn words32() -> Vec<u32> {
    let mut v: Vec<u32> = vec![0, 1, 2, u32::MAX, u32::MAX - 1, i32::MAX as u32, i32::MIN as u32, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7f80_0001, 0xffc0_1234, 0x0000_0001, 0x8000_0000, 0x3f80_0000, 0x01020304];
    for i in 0..32 {
        v.push(1 << i);
        v.push(!(1 << i));
        for j in 0..i {
            v.push(1 << i | 1 << j);
        }
    }
    for p in 0..4 {
        for b in 0..256u32 {
            v.push(b << (8 * p));
            v.push(!(b << (8 * p)));
        }
    }
    v.sort();
    v.dedup();
    v
}
fn words64() -> Vec<u64> {
    let mut v: Vec<u64> = vec![0, 1, u64::MAX, i64::MAX as u64, i64::MIN as u64, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0x7ff8_0000_0000_0000, 0x7ff0_0000_0000_0001, 0x3ff0_0000_0000_0000, 0x0102030405060708];
    for i in 0..64 {
        v.push(1 << i);
        v.push(!(1 << i));
        for j in 0..i {
            v.push(1 << i | 1 << j);
        }
    }
    for p in 0..8 {
        for b in 0..256u64 {
            v.push(b << (8 * p));
            v.push(!(b << (8 * p)));
        }
    }
    for w in words32() {
        v.push((w as u64) << 32 | 0x9abc_def0);
        v.push(0x1234_5678 << 32 | w as u64);
    }
    v.sort();
    v.dedup();
    v
}

/// All 2^32 words.
fn all_words(name: &str, good: impl Fn(&mut Bytes, u32) -> bool + Sync) {
    const T: u64 = 8;
    let chunk = (1u64 << 32) / T;
    std::thread::scope(|s| {
        for t in 0..T {
            let good = &good;
            s.spawn(move || {
                const BLOCK: usize = 1 << 14;
                let mut at = t * chunk;
                let mut buf = vec![0u8; BLOCK * 4];
                while at < (t + 1) * chunk {
                    for i in 0..BLOCK {
                        buf[4 * i..4 * i + 4].copy_from_slice(&(at as u32).wrapping_add(i as u32).to_be_bytes());
                    }
                    let mut b = Bytes::copy_from_slice(&buf);
                    for i in 0..BLOCK {
                        let w = (at as u32).wrapping_add(i as u32);
                        let before = b.len();
                        let ok = catch_unwind(AssertUnwindSafe(|| good(&mut b, w))).unwrap_or(false);
                        if !ok || b.len() > before {
                            viol(&format!("{} over all words", name), format!("{:08x}", w), format!("{} of the word {:#010x}", name, w));
                            return;
                        }
                        // an Error leaves the cursor unspecified
                        if b.len() != before - 4 {
                            let k = (BLOCK - i - 1) * 4;
                            b = Bytes::copy_from_slice(&buf[buf.len() - k..]);
                        }
                    }
                    at += BLOCK as u64;
                    EXEC.fetch_add(BLOCK as u64, Relaxed);
                    TRANS.fetch_add(BLOCK as u64, Relaxed);
                    WORDS.fetch_add(BLOCK as u64, Relaxed);
                }
            });
        }
    });
}

fn size<V: WireSize + ?Sized>(kind: &str, what: &dyn Fn() -> String, v: &V, want: usize) {
    EXEC.fetch_add(1, Relaxed);
    TRANS.fetch_add(1, Relaxed);
    match catch_unwind(AssertUnwindSafe(|| v.wire_size())) {
        Ok(n) if n == want => {
            OKS.fetch_add(1, Relaxed);
        }
        Ok(n) => viol(&format!("wire_size of {}", kind), what(), format!("{}: {} expected {}", what(), n, want)),
        Err(_) => viol(&format!("wire_size of {} panics", kind), what(), what()),
    }
}

/// Every sequence of element sizes.
fn mixed_sizes(len: usize, max: usize) {
    for k in 0..=len {
        let mut idx = vec![1usize; k];
        loop {
            let el: Vec<S> = idx.iter().map(|l| S(fill(*l, 1))).collect();
            let sum: usize = idx.iter().sum();
            size("vector of elements of mixed sizes", &|| format!("Vec of elements of {:?} bytes", idx), &el, 4 + pad(sum));
            size("slice of elements of mixed sizes", &|| format!("slice of elements of {:?} bytes", idx), &el[..], pad(sum));
            let strs: Vec<String> = idx.iter().map(|l| String::from_utf8(text(*l - 1)).unwrap()).collect();
            let sum: usize = idx.iter().map(|l| 4 + pad(*l - 1)).sum();
            size("vector of strings of mixed sizes", &|| format!("Vec of strings of {:?} bytes less one", idx), &strs, 4 + sum);
            size("slice of strings of mixed sizes", &|| format!("slice of strings of {:?} bytes less one", idx), &strs[..], sum);
            let mut at = 0;
            while at < k {
                idx[at] += 1;
                if idx[at] <= max {
                    break;
                }
                idx[at] = 1;
                at += 1;
            }
            if at == k {
                break;
            }
        }
    }
}

fn sizes(n_max: usize) {
    size("u32", &|| "0u32".into(), &0u32, 4);
    size("i32", &|| "-1i32".into(), &-1i32, 4);
    size("f32", &|| "f32".into(), &1.5f32, 4);
    size("u64", &|| "u64".into(), &u64::MAX, 8);
    size("i64", &|| "i64".into(), &i64::MIN, 8);
    size("f64", &|| "f64".into(), &0f64, 8);
    for b in [false, true] {
        size("bool", &|| format!("{}", b), &b, 4);
        size("option", &|| format!("Some({})", b), &Some(b), 8);
        size("box", &|| format!("Box({})", b), &Box::new(b), 4);
    }
    size("option", &|| "None::<u64>".into(), &None::<u64>, 4);
    size("option", &|| "Some(u64)".into(), &Some(1u64), 12);
    size("option", &|| "None::<Box<String>>".into(), &None::<Box<String>>, 4);
    for n in 0..=n_max {
        let s = String::from_utf8(text(n)).unwrap();
        size("string", &|| format!("a string of {} bytes", n), &s, 4 + pad(n));
        let mut roomy = String::with_capacity(n + 41);
        roomy.push_str(&s);
        size("string", &|| format!("a string of {} bytes with room for more", n), &roomy, 4 + pad(n));
        for (c, k) in [("\0", 1usize), ("\u{7ff}", 2), ("\u{ffff}", 3), ("\u{10ffff}", 4)] {
            size("string", &|| format!("{} characters of {} bytes", n, k), &c.repeat(n), 4 + pad(n * k));
        }
        size("option", &|| format!("Some(Box(string of {}))", n), &Some(Box::new(s.clone())), 8 + pad(n));
        size("box", &|| format!("Box(string of {})", n), &Box::new(s.clone()), 4 + pad(n));
        let v = fill(n, 1);
        size("vector of bytes", &|| format!("Vec<u8> of {}", n), &v, 4 + pad(n));
        size("slice of bytes", &|| format!("[u8] of {}", n), &v[..], pad(n));
        size("vector", &|| format!("Vec<u32> of {}", n), &vec![7u32; n], 4 + 4 * n);
        size("slice", &|| format!("[i32] of {}", n), &vec![7i32; n][..], 4 * n);
        size("vector", &|| format!("Vec<u64> of {}", n), &vec![7u64; n], 4 + 8 * n);
        size("vector", &|| format!("Vec<i64> of {}", n), &vec![7i64; n], 4 + 8 * n);
        size("vector", &|| format!("Vec<f32> of {}", n), &vec![7f32; n], 4 + 4 * n);
        size("slice", &|| format!("[f64] of {}", n), &vec![7f64; n][..], 8 * n);
        size("vector", &|| format!("Vec<bool> of {}", n), &vec![true; n], 4 + 4 * n);
        size("option", &|| format!("Some(Vec<u64> of {})", n), &Some(vec![1u64; n]), 8 + 8 * n);
        // elements that differ in size
        let strs: Vec<String> = (0..n).map(|k| String::from_utf8(text(k)).unwrap()).collect();
        let sum: usize = (0..n).map(|k| 4 + pad(k)).sum();
        size("vector of strings", &|| format!("Vec<String> of lengths 0..{}", n), &strs, 4 + sum);
        size("slice of strings", &|| format!("[String] of lengths 0..{}", n), &strs[..], sum);
        size("box", &|| format!("Box(Vec<String> of {})", n), &Box::new(strs.clone()), 4 + sum);
        let opts: Vec<Option<Box<String>>> = (0..n).map(|k| if k % 3 == 0 { None } else { Some(Box::new(String::from_utf8(text(k)).unwrap())) }).collect();
        let sum: usize = (0..n).map(|k| if k % 3 == 0 { 4 } else { 8 + pad(k) }).sum();
        size("vector of options", &|| format!("Vec<Option<Box<String>>> of {}", n), &opts, 4 + sum);
        let vecs: Vec<Vec<u8>> = (0..n).map(|k| fill(k, 0)).collect();
        let sum: usize = (0..n).map(|k| 4 + pad(k)).sum();
        size("vector of vectors", &|| format!("Vec<Vec<u8>> of lengths 0..{}", n), &vecs, 4 + sum);
        let vv: Vec<Vec<u64>> = (0..n).map(|k| vec![0; k % 4]).collect();
        let sum: usize = (0..n).map(|k| 4 + 8 * (k % 4)).sum();
        size("vector of vectors", &|| format!("Vec<Vec<u64>> of {}", n), &vv, 4 + sum);
        size("option", &|| "Some(Vec<Vec<u64>>)".into(), &Some(Box::new(vv)), 8 + sum);
        // elements of any size; what read_variable_array consumes for them
        for (first, step) in [(1usize, 1usize), (2, 0), (3, 0), (5, 7), (1, 3)] {
            let el: Vec<S> = (0..n).map(|k| S(fill(1 + (first + step * k) % 9, 1))).collect();
            let sum: usize = el.iter().map(|x| x.0.len()).sum();
            size("vector of elements of any size", &|| format!("Vec of {} elements, {} bytes", n, sum), &el, 4 + pad(sum));
            size("slice of elements of any size", &|| format!("slice of {} elements, {} bytes", n, sum), &el[..], pad(sum));
            for e in &el {
                size("box", &|| format!("Box of {} bytes", e.0.len()), &Box::new(e.clone()), e.0.len());
                size("option", &|| format!("Some of {} bytes", e.0.len()), &Some(e.clone()), 4 + e.0.len());
            }
        }
    }
    size("fixed array", &|| "[u32; 3]".into(), &[1u32, 2, 3][..], 12);
    for n in [255usize, 256, 257, 65535, 65536, 65537, 1 << 20, (1 << 20) + 3] {
        size("string", &|| format!("a string of {} bytes", n), &"x".repeat(n), 4 + pad(n));
        size("vector of bytes", &|| format!("Vec<u8> of {}", n), &vec![0u8; n], 4 + pad(n));
        size("vector", &|| format!("Vec<u32> of {}", n), &vec![0u32; n], 4 + 4 * n);
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let thorough = std::env::args().nth(1).map_or(false, |t| t == "thorough");
    let n = if thorough { 160 } else { 72 };
    let na = if thorough { 20 } else { 12 };
    const LONG: &[usize] = &[15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097];
    const HUGE: &[usize] = &[16, 33, 64, 65, 257, 1025, 65535, 65536, 65537];
    let jobs: Vec<Box<dyn Fn() + Send + Sync>> = vec![
        Box::new(move || opaques(n)),
        Box::new(move || sequences(n)),
        Box::new(move || sizes(n * 2)),
        Box::new(move || contents(thorough)),
        Box::new(move || mixed_sizes(if thorough { 6 } else { 5 }, 9)),
        Box::new(move || {
            scalar!("read_u32", read_u32, 4, u32, |x| x, words32());
            scalar!("read_i32", read_i32, 4, u32, |x: i32| x as u32, words32());
            scalar!("read_f32", read_f32, 4, u32, |x: f32| x.to_bits(), words32());
            for w in words32() {
                let mut d = w.to_be_bytes().to_vec();
                d.extend(fill(8, 5));
                for r in 0..=12 {
                    TRANS.fetch_add(1, Relaxed);
                    let want = if r >= 4 && w < 2 { Some((w == 1, 4)) } else { None };
                    call::<bool, bool>("read_bool", &|| format!("read_bool of {:#x}", w), &d[..r], |b| b.read_bool(), want);
                }
            }
        }),
        Box::new(move || {
            scalar!("read_u64", read_u64, 8, u64, |x| x, words64());
            scalar!("read_i64", read_i64, 8, u64, |x: i64| x as u64, words64());
            scalar!("read_f64", read_f64, 8, u64, |x: f64| x.to_bits(), words64());
        }),
        Box::new(move || {
            fn el<const K: usize>() -> Vec<(E<K>, Vec<u8>)> {
                (0..5u8)
                    .map(|s| {
                        let v = fill(K, s * 3);
                        let mut x = [0; K];
                        x.copy_from_slice(&v);
                        (E(x), v)
                    })
                    .collect()
            }
            long_array("read_variable_array of 1 byte elements", &el::<1>(), HUGE);
            long_array("read_variable_array of 3 byte elements", &el::<3>(), LONG);
            long_array("read_variable_array of 4 byte elements", &el::<4>(), HUGE);
            long_array("read_variable_array of 5 byte elements", &el::<5>(), LONG);
            long_array("read_variable_array of 12 byte elements", &el::<12>(), LONG);
            array("read_variable_array of 1 byte elements", &el::<1>(), na + 6);
            array("read_variable_array of 2 byte elements", &el::<2>(), na);
            array("read_variable_array of 3 byte elements", &el::<3>(), na);
            array("read_variable_array of 4 byte elements", &el::<4>(), na);
            array("read_variable_array of 5 byte elements", &el::<5>(), na);
            array("read_variable_array of 7 byte elements", &el::<7>(), na);
            array("read_variable_array of 8 byte elements", &el::<8>(), na);
            array("read_variable_array of 12 byte elements", &el::<12>(), na);
        }),
        Box::new(move || {
            let s: Vec<(S, Vec<u8>)> = [4u8, 8, 1, 12, 3, 2, 5]
                .iter()
                .map(|k| {
                    let mut v = fill(*k as usize, 0x30);
                    v[0] = *k;
                    (S(v.clone()), v)
                })
                .collect();
            array("read_variable_array of elements that differ in size", &s, na);
            long_array("read_variable_array of elements that differ in size", &s, LONG);
            // generated element types
            let w4 = |x: u32| x.to_be_bytes().to_vec();
            let el: Vec<_> = (1..4u32).map(|x| (eu(x), w4(x))).collect();
            array("read_variable_array of integer typedefs", &el, na);
            let el: Vec<_> = (1..4u64).map(|x| (eh(x << 33), (x << 33).to_be_bytes().to_vec())).collect();
            array("read_variable_array of hyper typedefs", &el, na);
            let el: Vec<_> = [ee::EA, ee::EB].iter().map(|x| (x.clone(), w4(if *x == ee::EA { 5 } else { 9 }))).collect();
            array("read_variable_array of enums", &el, na);
            let op = |k: usize| {
                let mut v = w4(k as u32);
                v.extend(fill(k, 2));
                v.resize(pad(v.len()), 0);
                (Bytes::from(fill(k, 2)), v)
            };
            let el: Vec<_> = [1usize, 0, 4, 3, 6].iter().map(|k| { let (b, w) = op(*k); (eo(b), w) }).collect();
            array("read_variable_array of opaque typedefs", &el, na);
            long_array("read_variable_array of opaque typedefs", &el, LONG);
            let el: Vec<_> = [2usize, 4, 0, 5]
                .iter()
                .map(|k| {
                    let mut v = w4(*k as u32);
                    v.extend(text(*k));
                    v.resize(pad(v.len()), 0);
                    (es(String::from_utf8(text(*k)).unwrap()), v)
                })
                .collect();
            array("read_variable_array of string typedefs", &el, na);
            long_array("read_variable_array of string typedefs", &el, LONG);
            let el: Vec<_> = [1usize, 5, 0, 2]
                .iter()
                .map(|k| {
                    let (b, w) = op(*k);
                    let mut v = w4(*k as u32 + 77);
                    v.extend(w);
                    v.extend(fill(3, 7));
                    v.push(0);
                    v.extend(w4(1));
                    (st { a: *k as u32 + 77, b, c: Bytes::from(fill(3, 7)), d: true }, v)
                })
                .collect();
            array("read_variable_array of structs", &el, na);
            long_array("read_variable_array of structs", &el, LONG);
            let el: Vec<_> = (0..3u32)
                .map(|k| match k {
                    0 => (un::v_1(st2 { x: 5, y: 6 }), [w4(1), w4(5), vec![0, 0, 0, 0, 0, 0, 0, 6]].concat()),
                    1 => (un::v_2, w4(2)),
                    _ => (un::default(eu(8)), [w4(40), w4(8)].concat()),
                })
                .collect();
            // the discriminant of the default arm is not part of the value: decode only
            array("read_variable_array of unions", &el, na);
        }),
    ];
    std::thread::scope(|s| {
        for j in &jobs {
            s.spawn(move || j());
        }
    });
    all_words("read_bool", |b, w| match b.read_bool() {
        Ok(x) => w < 2 && x == (w == 1),
        Err(_) => w > 1,
    });
    {
        all_words("read_u32", |b, w| b.read_u32() == Ok(w));
        all_words("read_i32", |b, w| b.read_i32() == Ok(w as i32));
        all_words("read_f32", |b, w| b.read_f32().map(|x| x.to_bits()) == Ok(w));
    }
    for (k, i, d) in VIOLS.lock().unwrap().iter() {
        println!("VIOL\t{}\t{}\t{}", k.replace('\n', " "), i.replace('\n', " "), d.replace(['\n', '\t'], " "));
    }
    for s in SAMPLES.lock().unwrap().iter() {
        println!("SAMPLE\t{}", s.replace(['\n', '\t'], " "));
    }
    println!("STAT\twords_of_complete_32_bit_sweeps={}", WORDS.load(Relaxed));
    println!("STAT\tn_max={}", n);
    println!("STAT\tarray_n_max={}", na);
    println!("STAT\texecutions={}", EXEC.load(Relaxed));
    println!("STAT\ttransitions={}", TRANS.load(Relaxed));
    println!("STAT\toks={}", OKS.load(Relaxed));
    println!("STAT\terrs={}", ERRS.load(Relaxed));
    println!("DONE");
}
