//! C23 (limits of length prefixes) and C25 (wrappers and enums).
use crate::nums::dec;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::convert::TryFrom;
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};
use tedium::conv::len::Estimable as Est;
use tedium::conv::EncodeLength;
use tedium::dynamic::{LenPref, VPadded};
use tedium::error::WidthError;
use tedium::int::u30;
use tedium::schema::{Nullable, Padded};
use tedium::conv::target::Target;
use tedium::*;
use vcore::engine::*;
use vcore::{ensure, ensure_eq};

// ------------------------------------------------------------------ C23

/// A target which counts, and keeps the first bytes only.
#[derive(Default, Debug, Clone, PartialEq)]
pub struct Counted {
    head: Vec<u8>,
    total: usize,
}
const KEEP: usize = 24;
impl Counted {
    fn put(&mut self, b: &[u8]) -> usize {
        let room = KEEP.saturating_sub(self.head.len()).min(b.len());
        self.head.extend_from_slice(&b[..room]);
        self.total += b.len();
        b.len()
    }
}
impl Target for Counted {
    fn anticipate(&mut self, _: usize) {}
    fn create() -> Self {
        Self::default()
    }
    fn push_one(&mut self, b: u8) -> usize {
        self.put(&[b])
    }
    fn push_many<const N: usize>(&mut self, arr: [u8; N]) -> usize {
        self.put(&arr)
    }
    fn push_all(&mut self, buf: &[u8]) -> usize {
        self.put(buf)
    }
}
static CHUNK: [u8; 1 << 20] = [0xa5; 1 << 20];
fn fill<U: Target>(mut n: usize, buf: &mut U) -> usize {
    let mut w = 0;
    while n > 0 {
        let k = n.min(CHUNK.len());
        w += buf.push_all(&CHUNK[..k]);
        n -= k;
    }
    w
}
/// A payload of any length, taking no memory.
#[derive(Debug, Clone, PartialEq)]
pub struct Big(usize);
impl Encode for Big {
    fn write_to<U: Target>(&self, buf: &mut U) -> usize {
        fill(self.0, buf)
    }
}
impl Est for Big {
    const KNOWN: Option<usize> = None;
    fn unknown(&self) -> usize {
        self.0
    }
}
/// The same, of a length known from its type.
#[derive(Debug, Clone, PartialEq)]
pub struct Fixed<const L: usize>;
impl<const L: usize> Encode for Fixed<L> {
    fn write_to<U: Target>(&self, buf: &mut U) -> usize {
        fill(L, buf)
    }
}
impl<const L: usize> Est for Fixed<L> {
    const KNOWN: Option<usize> = Some(L);
    fn unknown(&self) -> usize {
        L
    }
}

pub trait Pfx: LenPref + Copy + Debug {
    const W: usize;
    const MAX: usize;
    const NAME: &'static str;
}
impl Pfx for u8 {
    const W: usize = 1;
    const MAX: usize = 255;
    const NAME: &'static str = "u8";
}
impl Pfx for u16 {
    const W: usize = 2;
    const MAX: usize = 65535;
    const NAME: &'static str = "u16";
}
impl Pfx for u30 {
    const W: usize = 4;
    const MAX: usize = (1 << 30) - 1;
    const NAME: &'static str = "u30";
}
fn prefix_bytes(w: usize, n: usize) -> Vec<u8> {
    (n as u64).to_be_bytes()[8 - w..].to_vec()
}
/// The prefix, asked for.
fn ask<S: Pfx, T: EncodeLength>(d: &Dynamic<S, T>, len: usize) -> R {
    let got = guard(|| d.length_prefix())?;
    match got {
        Ok(x) => {
            ensure!(len <= S::MAX, "{}: a prefix for {len} bytes was given", S::NAME);
            let x: usize = x.into();
            ensure_eq!(x, len, "{}: prefix", S::NAME);
        }
        Err(e) => {
            ensure!(len > S::MAX, "{}: no prefix for {len} bytes: {e:?}", S::NAME);
            match e {
                WidthError::TooWide { limit, actual } => ensure_eq!((limit, actual), (S::MAX, len), "{}: limit and actual length", S::NAME),
                e => return Err(format!("{}: {e:?} for {len} bytes", S::NAME)),
            }
        }
    }
    ensure_eq!(S::max_len(), S::MAX, "maximum of {}", S::NAME);
    Ok(())
}
/// Encodes into a counting target; `Err` if the encoder panicked, with what it wrote.
fn run<T: Encode>(x: &T, before: &[u8]) -> (Result<usize, String>, Counted) {
    let mut out = Counted::default();
    out.push_all(before);
    let r = guard(|| x.write_to(&mut out));
    (r, out)
}
fn top<S: Pfx, T: EncodeLength>(d: &Dynamic<S, T>, len: usize, before: &[u8]) -> R {
    ask(d, len)?;
    let (r, out) = run(d, before);
    match r {
        Ok(n) => {
            ensure!(len <= S::MAX, "{}: {len} bytes were encoded, beginning {:02x?}", S::NAME, out.head);
            ensure_eq!(n, len + S::W, "{}: bytes said to be written", S::NAME);
            ensure_eq!(out.total, before.len() + n, "{}: bytes written", S::NAME);
            let mut want = before.to_vec();
            want.extend(prefix_bytes(S::W, len));
            want.extend(CHUNK.iter().take(len.min(KEEP)));
            want.truncate(KEEP);
            ensure_eq!(out.head, want, "{}: start of the encoding", S::NAME);
        }
        Err(e) => {
            ensure!(len <= usize::MAX && len > S::MAX, "{}: {len} bytes were refused: {e}", S::NAME);
            ensure_eq!(out.total, before.len(), "{}: bytes written ({:02x?}) before refusing {len} bytes", S::NAME, out.head);
        }
    }
    Ok(())
}
fn len_near<S: Pfx>(s: &mut Src) -> usize {
    let m = S::MAX + 1;
    match s.weighted(&[6, 3, 2, 2, 2]) {
        0 => (m + s.range(0, 6)).saturating_sub(4),
        1 => s.range(0, 300),
        2 => m * s.range(1, 3) + s.range(0, 5),
        3 => *s.pick(&[127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 65536 + 255, 1 << 20, (1 << 24) - 1, 1 << 24]),
        // rarely: these take a while
        _ => {
            if s.chance(1, 40) {
                let k = s.range(0, 4);
                *s.pick(&[(1 << 30) - 3, (1usize << 31) - 2, (1 << 32) - 2]) + k
            } else {
                s.range(0, 2 * m.min(1 << 20))
            }
        }
    }
}
pub fn by_length<S: Pfx>(cx: &mut Cx) -> R {
    let len = len_near::<S>(&mut cx.s);
    let k = cx.s.range(0, 3);
    let before = cx.s.bytes(k);
    cx.note(|| format!("{} bytes of payload after {before:02x?}", len));
    if len + 2 >= S::MAX {
        cx.nontrivial(&(len, k));
    }
    cx.class(if len > S::MAX { "too long" } else { "fits" });
    top(&Dynamic::<S, Big>::new(Big(len)), len, &before)?;
    // the same bytes in wrappers which add nothing, or something, to them
    match cx.s.draw(5) {
        0 => top(&Dynamic::<S, AutoBox<Big>>::new(AutoBox::new(Big(len))), len, &before),
        1 => top(&Dynamic::<S, VPadded<Big, 3>>::new(VPadded::new(Big(len))), len, &before),
        2 => {
            let pad = len.min(4);
            top(&Dynamic::<S, Nullable<Big>>::new(Some(Big(len - pad + pad)).into()), len, &before)
        }
        3 if len >= 5 => {
            let a = cx.s.range(0, len);
            top(&Dynamic::<S, Sequence<Big>>::new(vec![Big(a), Big(len - a)].into_iter().collect()), len, &before)
        }
        _ => top(&Dynamic::<S, Nullable<Big>>::new(None.into()), 0, &before),
    }
}
/// A padded payload: the padding counts.
pub fn padded<S: Pfx>(cx: &mut Cx) -> R {
    let len = len_near::<S>(&mut cx.s).max(9);
    cx.note(|| format!("{} bytes with 9 of padding", len));
    cx.nontrivial(&len);
    let d = Dynamic::<S, Padded<Big, 9>>::new(Padded::new(Big(len - 9)));
    ask(&d, len)?;
    let (r, out) = run(&d, &[]);
    match r {
        Ok(n) => {
            ensure!(len <= S::MAX, "{}: {len} bytes were encoded, beginning {:02x?}", S::NAME, out.head);
            ensure_eq!((n, out.total), (len + S::W, len + S::W), "bytes written");
            ensure_eq!(out.head[..S::W], prefix_bytes(S::W, len)[..], "prefix");
        }
        Err(e) => {
            ensure!(len > S::MAX, "{}: {len} bytes were refused: {e}", S::NAME);
            ensure_eq!(out.total, 0, "bytes written before refusing");
        }
    }
    Ok(())
}
pub struct Pair<A, B> {
    a: A,
    b: B,
}
impl<A: Encode, B: Encode> Encode for Pair<A, B> {
    fn write_to<U: Target>(&self, buf: &mut U) -> usize {
        let n = self.a.write_to(buf);
        n + self.b.write_to(buf)
    }
}
impl<A: Est, B: Est> Est for Pair<A, B> {
    const KNOWN: Option<usize> = None;
    fn unknown(&self) -> usize {
        self.a.estimate() + self.b.estimate()
    }
}
/// A prefixed payload within a prefixed payload.
pub fn nested<S: Pfx, I: Pfx>(cx: &mut Cx) -> R {
    let (len, lead) = {
        let s = &mut cx.s;
        let len = if s.chance(1, 3) { len_near::<S>(s).saturating_sub(I::W) } else { len_near::<I>(s) };
        // a few bytes before the inner prefix
        (len, s.range(0, 3))
    };
    cx.note(|| format!("{} in {}: {lead} then {len} bytes", I::NAME, S::NAME));
    let outer = lead + I::W + len;
    if len + 2 >= I::MAX || outer + 2 >= S::MAX {
        cx.nontrivial(&(len, lead));
    }
    let d = Dynamic::<S, Pair<Big, Dynamic<I, Big>>>::new(Pair { a: Big(lead), b: Dynamic::new(Big(len)) });
    let ok = len <= I::MAX && outer <= S::MAX;
    let asked = guard(|| d.length_prefix());
    if len <= I::MAX {
        ask(&d, outer)?;
    } else if let Ok(Ok(p)) = asked {
        // the contents have no encoding; only a size oracle can get here
        let p: usize = p.into();
        ensure_eq!(p, outer, "{} in {}: outer prefix", I::NAME, S::NAME);
    }
    let (r, out) = run(&d, &[]);
    ensure_eq!(r.is_ok(), ok, "{} in {}: {lead} and {len} bytes: outcome {r:?}, wrote {:02x?}", I::NAME, S::NAME, out.head);
    if let Ok(n) = r {
        ensure_eq!((n, out.total), (outer + S::W, outer + S::W), "bytes written");
        let mut want = prefix_bytes(S::W, outer);
        want.extend(CHUNK.iter().take(lead));
        want.extend(prefix_bytes(I::W, len));
        ensure_eq!(out.head[..want.len()], want[..], "{} in {}: prefixes", I::NAME, S::NAME);
    } else {
        // whatever was written stops before the prefix that would be wrong
        let most = if outer > S::MAX && len <= I::MAX { 0 } else { S::W + lead };
        ensure!(out.total <= most, "{} in {}: {} bytes ({:02x?}) written before refusing", I::NAME, S::NAME, out.total, out.head);
        if out.total >= S::W {
            ensure_eq!(out.head[..S::W], prefix_bytes(S::W, outer)[..], "outer prefix before refusing");
        }
    }
    // and in a list: the first refused element stops it
    let good = cx.s.range(0, 3);
    let mut v: Vec<Dynamic<I, Big>> = (0..good).map(|_| Dynamic::new(Big(1))).collect();
    v.push(Dynamic::new(Big(len)));
    v.push(Dynamic::new(Big(2)));
    let q: Sequence<Dynamic<I, Big>> = v.into();
    let (r, out) = run(&q, &[]);
    ensure_eq!(r.is_ok(), len <= I::MAX, "{} in a sequence: {len} bytes", I::NAME);
    if r.is_err() {
        ensure_eq!(out.total, good * (I::W + 1), "{} in a sequence: written before refusing", I::NAME);
    }
    Ok(())
}
macro_rules! fixed_lens {
    ($S:ty; $($l:expr),+) => {{
        $(
            top(&Dynamic::<$S, Fixed<{ $l }>>::new(Fixed), $l, &[])?;
            top(&Dynamic::<$S, Fixed<{ $l }>>::new(Fixed), $l, &[1, 2])?;
            top(&Dynamic::<$S, Padded<Fixed<{ $l - 7 }>, 0>>::new(Padded::new(Fixed)), $l - 7, &[])?;
        )+
    }};
}
/// Contents whose length is known from the type.
pub fn known_lengths(cx: &mut Cx, i: u64) -> R {
    cx.nontrivial(&i);
    cx.note(|| format!("lengths known from the type, prefix {i}"));
    match i {
        0 => fixed_lens!(u8; 7, 8, 253, 254, 255, 256, 257, 262, 263, 264, 510, 511, 512, 513, 65535, 65536, 65537, 65791, 65792, 1 << 20, 1 << 30, 1 << 32, (1 << 32) + 8),
        1 => fixed_lens!(u16; 7, 8, 255, 256, 257, 65533, 65534, 65535, 65536, 65537, 65542, 65543, 65544, 131071, 131072, 131073, 1 << 24, 1 << 30, 1 << 32, (1 << 32) + 8),
        _ => fixed_lens!(u30; 7, 8, 255, 256, 257, 65535, 65536, 65537, 1 << 24, (1 << 30) - 2, (1 << 30) - 1, 1 << 30, (1 << 30) + 1, (1 << 30) + 6, (1 << 30) + 7, (1 << 30) + 8, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 8),
    }
    Ok(())
}
/// Real payloads: every way of encoding refuses alike, and what is encoded reads back.
pub fn real<S: Pfx>(cx: &mut Cx) -> R {
    let len = {
        let s = &mut cx.s;
        let m = if S::MAX < 70000 { S::MAX } else { 70000 };
        match s.weighted(&[4, 3, 1]) {
            0 => (m + s.range(0, 6)).saturating_sub(3),
            1 => s.range(0, 20),
            _ => s.range(0, 70000),
        }
    };
    let seed = cx.s.byte();
    let v: Vec<u8> = (0..len).map(|i| (i as u8).wrapping_mul(31).wrapping_add(seed)).collect();
    cx.note(|| format!("{} bytes behind {}", len, S::NAME));
    if len + 3 >= S::MAX {
        cx.nontrivial(&(len, seed));
    }
    let fits = len <= S::MAX;
    let mut want = prefix_bytes(S::W, len);
    want.extend(&v);
    macro_rules! ways {
        ($d:expr, $T:ty) => {{
            let d: $T = $d;
            let mut out: Vec<(&str, Result<Vec<u8>, String>)> = vec![];
            out.push(("to_bytes", guard(|| d.to_bytes())));
            out.push(("to_bytes_full", guard(|| d.to_bytes_full())));
            out.push(("encode Vec", guard(|| d.encode::<Vec<u8>>())));
            out.push(("encode StrictBuilder", guard(|| d.encode::<StrictBuilder>().into_vec())));
            out.push(("encode MemoBuilder", guard(|| d.encode::<MemoBuilder>().into_vec())));
            out.push(("encode HexString", guard(|| d.encode::<HexString>().as_bytes().to_vec())));
            for (n, r) in &out {
                ensure_eq!(r.is_ok(), fits, "{}: {n} of {len} bytes", S::NAME);
                if let Ok(r) = r {
                    ensure!(*r == want, "{}: {n} of {len} bytes begins {:02x?}, expected {:02x?}", S::NAME, &r[..r.len().min(8)], &want[..want.len().min(8)]);
                }
            }
            // appending: what was there stays, and nothing is added by a refusal
            let mut buf = vec![9u8, 8, 7];
            let r = guard(|| d.write_to_vec(&mut buf));
            ensure_eq!(r.is_ok(), fits, "{}: write_to_vec of {len} bytes", S::NAME);
            if fits {
                ensure!(buf[..3] == [9, 8, 7] && buf[3..] == want[..], "{}: write_to_vec of {len} bytes", S::NAME);
                let back = dec::<$T>(&want).map_err(|e| format!("{}: {len} bytes do not read back: {e:?}", S::NAME))?;
                ensure!(back.to_bytes() == want, "{}: {len} bytes read back as something else", S::NAME);
            } else {
                ensure_eq!(buf, vec![9u8, 8, 7], "{}: left in the buffer by a refusal", S::NAME);
            }
            ask(&d, len)?;
        }};
    }
    match cx.s.draw(3) {
        0 => ways!(Dynamic::new(Bytes::from(v.clone().roomy())), Dynamic<S, Bytes>),
        1 => ways!(Dynamic::new(v.iter().map(|b| *b).collect()), Dynamic<S, Sequence<u8>>),
        2 => {
            let t: String = v.iter().map(|b| (b & 0x7f) as char).collect();
            want.truncate(S::W);
            want.extend(t.as_bytes());
            ways!(Dynamic::new(t), Dynamic<S, String>)
        }
        _ => ways!(Dynamic::new(Some(Bytes::from(v.clone().roomy())).into()), Dynamic<S, Nullable<Bytes>>),
    }
    Ok(())
}
/// Fixed-width contents too wide for the prefix: no value of the type can be
/// encoded, and no bytes decode to one.
pub fn too_wide(cx: &mut Cx) -> R {
    let p = cx.s.byte();
    let n = cx.s.range(0, 600);
    let mut b = vec![p];
    b.extend(std::iter::repeat(cx.s.byte()).take(n));
    cx.note(|| format!("{p} then {n} bytes"));
    cx.nontrivial(&(p, n));
    macro_rules! w {
        ($($w:literal),+) => { $( {
            let r = guard(|| dec::<Dynamic<u8, FixedBytes<$w>>>(&b))?;
            if let Ok(d) = r {
                ensure_eq!(p as usize, $w, "a prefix of {p} stands for {} bytes", $w);
                let back = guard(|| d.to_bytes()).map_err(|e| format!("decoded but not encodable: {e}"))?;
                ensure_eq!(back[..], b[..1 + $w], "re-encoding");
            }
            let v = Dynamic::<u8, FixedBytes<$w>>::new(FixedBytes::from([p; $w]));
            let r = guard(|| v.to_bytes());
            ensure_eq!(r.is_ok(), $w <= 255, "encoding {} bytes behind u8", $w);
        } )+ };
    }
    w!(0, 1, 2, 100, 254, 255, 256, 257, 300, 512);
    Ok(())
}

// ------------------------------------------------------------------ C25

fn fmts<A: Display + ?Sized, B: Display + ?Sized>(a: &A, b: &B, what: &str) -> R {
    macro_rules! f { ($($f:literal),+) => { $( ensure_eq!(format!($f, a), format!($f, b), "{what}: text with {:?}", $f); )+ }; }
    f!("{}", "{:>12}", "{:<9}|", "{:^11}", "{:+}", "{:#}", "{:08}", "{:.2}", "{:*^14.1}");
    Ok(())
}
fn dbgs<A: Debug + ?Sized, B: Debug + ?Sized>(a: &A, b: &B, what: &str) -> R {
    macro_rules! f { ($($f:literal),+) => { $( ensure_eq!(format!($f, a), format!($f, b), "{what}: debug text with {:?}", $f); )+ }; }
    f!("{:?}", "{:#?}", "{:5?}", "{:x?}");
    Ok(())
}
/// Comparison of the wrapped pair is that of the bare pair.
fn cmp_laws<W: PartialOrd, T: PartialOrd>(a: &W, b: &W, x: &T, y: &T, what: &str) -> R {
    ensure_eq!(a == b, x == y, "{what}: equality");
    ensure_eq!(a != b, x != y, "{what}: inequality");
    ensure_eq!(b == a, y == x, "{what}: equality, reversed");
    ensure_eq!(a.partial_cmp(b), x.partial_cmp(y), "{what}: partial order");
    ensure_eq!(b.partial_cmp(a), y.partial_cmp(x), "{what}: partial order, reversed");
    ensure_eq!((a < b, a <= b, a > b, a >= b), (x < y, x <= y, x > y, x >= y), "{what}: relations");
    #[allow(clippy::eq_op)]
    {
        ensure_eq!(a == a, x == x, "{what}: equality with itself");
    }
    Ok(())
}
fn ord_laws<W: Ord + Clone + Hash, T: Ord + Clone + Hash>(a: &W, b: &W, x: &T, y: &T, what: &str, out: impl Fn(W) -> T) -> R {
    ensure_eq!(a.cmp(b), x.cmp(y), "{what}: order");
    ensure_eq!(b.cmp(a), y.cmp(x), "{what}: order, reversed");
    ensure!(out(a.clone().max(b.clone())) == x.clone().max(y.clone()), "{what}: maximum");
    ensure!(out(a.clone().min(b.clone())) == x.clone().min(y.clone()), "{what}: minimum");
    hash_laws(a, b, x, y, a == b, what)
}
fn hash_laws<W: Hash, T: Hash>(a: &W, b: &W, x: &T, y: &T, equal: bool, what: &str) -> R {
    ensure_eq!(hash_of(a), hash_of(x), "{what}: hash");
    ensure_eq!(hash_of(b), hash_of(y), "{what}: hash");
    if equal {
        ensure_eq!(hash_of(a), hash_of(b), "{what}: hashes of equal values");
    }
    Ok(())
}
fn enc_laws<W: Encode + PartialEq + Clone>(a: &W, b: &W, exact: bool, what: &str) -> R {
    let (ea, eb) = (a.to_bytes(), b.to_bytes());
    if exact && a == b {
        ensure_eq!(ea, eb, "{what}: encodings of equal values");
    }
    ensure_eq!(a.clone().to_bytes(), ea, "{what}: encoding of a clone");
    Ok(())
}
/// Contents whose every trait is peculiar, so that nothing but delegation agrees with them.
#[derive(Clone, Debug, Default, Encode, Decode, Estimable)]
pub struct Odd {
    pub a: u8,
    pub b: u8,
}
impl PartialEq for Odd {
    fn eq(&self, o: &Self) -> bool {
        self.a % 8 == o.a % 8
    }
}
impl Eq for Odd {}
impl PartialOrd for Odd {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        if self.a & 16 != 0 || o.a & 16 != 0 {
            return None;
        }
        Some(o.b.cmp(&self.b))
    }
    fn lt(&self, o: &Self) -> bool {
        self.partial_cmp(o) == Some(Ordering::Less)
    }
}
impl Ord for Odd {
    fn cmp(&self, o: &Self) -> Ordering {
        (o.a % 8).cmp(&(self.a % 8))
    }
}
impl Hash for Odd {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        h.write_u8(self.a % 8);
        h.write_u16(7);
    }
}
impl Display for Odd {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<{:?} {:?} {} {}", f.width(), f.precision(), f.alternate(), f.sign_plus())?;
        f.pad(&format!("{}", self.a))
    }
}

pub trait Subject: Clone + Debug + PartialOrd + Encode + Est + Decode + 'static {
    fn gen(s: &mut Src) -> Self;
    /// A value near this one.
    fn near(&self, s: &mut Src) -> Self {
        if s.coin() {
            self.clone()
        } else {
            Self::gen(s)
        }
    }
    /// Decodes within a bounded context only.
    const OPEN: bool = false;
    /// No value is unequal to itself, and equality is identity.
    const EXACT: bool = true;
}
macro_rules! subject {
    ($($t:ty => $open:expr, $exact:expr, |$s:ident| $e:expr);+ $(;)?) => { $(
        impl Subject for $t {
            const OPEN: bool = $open;
            const EXACT: bool = $exact;
            fn gen($s: &mut Src) -> Self { $e }
        }
    )+ };
}
subject! {
    u8 => false, true, |s| s.byte();
    i64 => false, true, |s| s.int(i64::MIN as i128, i64::MAX as i128) as i64;
    bool => false, true, |s| s.coin();
    f64 => false, false, |s| if s.chance(1, 3) { *s.pick(&[0.0, -0.0, f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY]) } else { vcore::model::gen_f64(s) };
    Odd => false, false, |s| Odd { a: s.draw(40) as u8, b: s.draw(3) as u8 };
    Bytes => true, true, |s| { let n = s.range(0, 4); s.bytes(n).into() };
    String => true, true, |s| { let n = s.range(0, 4); vcore::model::gen_text(s, n) };
    Z => false, true, |s| Z::new(vcore::model::gen_big(s, true));
    Sequence<u16> => true, true, |s| { let n = s.range(0, 4); (0..n).map(|_| s.draw(3) as u16).collect() };
    Option<u8> => false, true, |s| if s.coin() { Some(s.draw(2) as u8) } else { None };
    Dynamic<u8, Bytes> => false, true, |s| { let n = s.range(0, 4); Dynamic::new(s.bytes(n).into()) };
    FixedBytes<3> => false, true, |s| FixedBytes::from([s.draw(2) as u8, s.draw(2) as u8, s.byte()]);
    Suit => false, true, |s| *s.pick(&[Suit::Heart, Suit::Club, Suit::Spade, Suit::Last]);
    Shape => false, true, |s| shape(s);
}
fn pair<T: Subject>(cx: &mut Cx) -> (T, T) {
    let x = T::gen(&mut cx.s);
    let y = x.near(&mut cx.s);
    (x, y)
}
fn show<T: Debug>(x: &T) -> String {
    format!("{x:?}")
}
/// Wrapping adds nothing to comparison; extraction gives back what was put in.
pub fn wrapped<T: Subject>(cx: &mut Cx) -> R {
    let (x, y) = pair::<T>(cx);
    cx.note(|| format!("{x:?} and {y:?}"));
    cx.nontrivial(&(show(&x), show(&y)));
    if x == y {
        cx.class("equal contents");
    } else {
        cx.class("unequal contents");
    }
    let same = |a: &T, b: &T| show(a) == show(b) && a.to_bytes() == b.to_bytes();

    macro_rules! dynamic {
        ($S:ty, $w:literal) => {{
            let n = concat!("Dynamic<", stringify!($S), ">");
            let (a, b) = (Dynamic::<$S, T>::new(x.clone()), Dynamic::<$S, T>::from(y.clone()));
            cmp_laws(&a, &b, &x, &y, n)?;
            enc_laws(&a, &b, T::EXACT, n)?;
            let r: &T = a.as_ref();
            ensure!(same(r, &x), "{n}: as_ref gives {r:?}");
            let r: &T = a.borrow();
            ensure!(same(r, &x), "{n}: borrow gives {r:?}");
            let mut c = a.clone();
            *c.as_mut() = y.clone();
            ensure!(same(c.as_ref(), &y) && same(a.as_ref(), &x), "{n}: as_mut gives {c:?}");
            ensure!(same(&c.into_inner(), &y) && same(&a.clone().into_inner(), &x), "{n}: into_inner");
            ensure_eq!(a.to_bytes()[$w..], x.to_bytes()[..], "{n}: encoding");
            ensure_eq!(a.to_bytes()[$w - 1] as usize, x.to_bytes().len(), "{n}: prefix");
            let back = dec::<Dynamic<$S, T>>(&a.to_bytes()).map_err(|e| format!("{n}: does not decode: {e:?}"))?;
            ensure!(same(back.as_ref(), &x), "{n}: decodes to {back:?}");
        }};
    }
    dynamic!(u8, 1);
    dynamic!(u16, 2);
    dynamic!(u30, 4);

    macro_rules! vpadded {
        ($N:literal) => {{
            let n = concat!("VPadded<", $N, ">");
            let (a, b) = (VPadded::<T, $N>::new(x.clone()), VPadded::<T, $N>::from(y.clone()));
            cmp_laws(&a, &b, &x, &y, n)?;
            enc_laws(&a, &b, T::EXACT, n)?;
            dbgs(&a, &x, n)?;
            ensure!(same(&a.clone().into_inner(), &x) && same(&b.into_inner(), &y), "{n}: into_inner");
            ensure_eq!(a.to_bytes(), x.to_bytes(), "{n}: encoding");
            ensure_eq!(a.estimate(), x.estimate(), "{n}: size");
        }};
    }
    vpadded!(0);
    vpadded!(5);

    macro_rules! padded {
        ($N:literal) => {{
            let n = concat!("Padded<", $N, ">");
            let (a, b) = (Padded::<T, $N>::new(x.clone()), Padded::<T, $N>::from(y.clone()));
            cmp_laws(&a, &b, &x, &y, n)?;
            enc_laws(&a, &b, T::EXACT, n)?;
            ensure!(same(a.as_inner(), &x) && same(b.as_inner(), &y), "{n}: as_inner");
            let mut c = a.clone();
            *c.as_mut_inner() = y.clone();
            ensure!(same(c.as_inner(), &y) && same(a.as_inner(), &x), "{n}: as_mut_inner");
            ensure!(same(&a.clone().into_inner(), &x) && same(&c.into_inner(), &y), "{n}: into_inner");
            ensure_eq!((a.padding(), Padded::<T, $N>::PADDING), ($N, $N), "{n}: padding");
            let w = Padded::<T, 99>::with_padding::<$N>(x.clone());
            ensure!(w.padding() == $N && same(w.as_inner(), &x), "{n}: with_padding");
            let mut want = x.to_bytes();
            want.extend([0; $N]);
            ensure_eq!(a.to_bytes(), want, "{n}: encoding");
        }};
    }
    padded!(0);
    padded!(1);
    padded!(8);

    // Nullable, like Option
    {
        let n = "Nullable";
        let ox = if cx.s.chance(1, 4) { None } else { Some(x.clone()) };
        let oy = if cx.s.chance(1, 4) { None } else { Some(y.clone()) };
        let (a, b) = (Nullable::<T>::from(ox.clone()), Nullable::<T>::from(oy.clone()));
        cmp_laws(&a, &b, &ox, &oy, n)?;
        enc_laws(&a, &b, T::EXACT, n)?;
        ensure_eq!((a.is_some(), a.is_none()), (ox.is_some(), ox.is_none()), "{n}: presence");
        let so = |p: &Option<T>, q: &Option<T>| show(p) == show(q) && p.to_bytes() == q.to_bytes();
        ensure!(so(a.as_inner(), &ox) && so(&a.clone().into_inner(), &ox), "{n}: extraction");
        let r: Option<T> = b.clone().into();
        ensure!(so(&r, &oy), "{n}: into Option");
        let mut c = a.clone();
        *c.as_mut_inner() = oy.clone();
        ensure!(so(c.as_inner(), &oy) && so(a.as_inner(), &ox), "{n}: as_mut_inner");
        let f = Nullable::<T>::from(x.clone());
        ensure!(so(f.as_inner(), &Some(x.clone())), "{n}: from bare contents");
        ensure!(Nullable::<T>::default().is_none(), "{n}: default");
        ensure_eq!(a.to_bytes(), ox.as_ref().map(|x| x.to_bytes()).unwrap_or_default(), "{n}: encoding");
    }
    // AutoBox
    {
        let n = "AutoBox";
        let (a, b) = (AutoBox::new(x.clone()), AutoBox::from_boxed(Box::new(y.clone())));
        cmp_laws(&a, &b, &x, &y, n)?;
        enc_laws(&a, &b, T::EXACT, n)?;
        dbgs(&a, &x, n)?;
        ensure_eq!(a.to_bytes(), x.to_bytes(), "{n}: encoding");
        ensure_eq!(a.estimate(), x.estimate(), "{n}: size");
        ensure!(same(a.as_inner(), &x) && same(b.as_inner(), &y), "{n}: as_inner");
        let r: &T = a.as_ref();
        ensure!(same(r, &x), "{n}: as_ref");
        let r: &Box<T> = a.as_ref();
        ensure!(same(r, &x), "{n}: as_ref to Box");
        for k in 0..3 {
            let mut c = a.clone();
            match k {
                0 => *c.as_mut_inner() = y.clone(),
                1 => *c.as_mut_boxed() = Box::new(y.clone()),
                _ => *c.as_mut() = y.clone(),
            }
            ensure!(same(c.as_inner(), &y) && same(a.as_inner(), &x), "{n}: changed through a reference ({k})");
            ensure!(same(&c.into_inner(), &y), "{n}: into_inner after a change");
        }
        ensure!(same(&a.clone().into_box(), &x) && same(&a.clone().into_inner(), &x), "{n}: extraction");
        ensure!(same(&AutoBox::from(x.clone()).into_inner(), &x) && same(&AutoBox::from(Box::new(x.clone())).into_inner(), &x), "{n}: from");
        if !T::OPEN {
            let back = dec::<AutoBox<T>>(&a.to_bytes()).map_err(|e| format!("{n}: does not decode: {e:?}"))?;
            ensure!(same(back.as_inner(), &x), "{n}: decodes to {back:?}");
        }
    }
    if T::EXACT {
        ensure_eq!(x == y, show(&x) == show(&y), "equality of contents");
        if !T::OPEN {
            ensure_eq!(x == y, x.to_bytes() == y.to_bytes(), "encodings of contents");
        }
    }
    Ok(())
}
/// Order, hashes and defaults.
pub fn wrapped_ord<T: Subject + Ord + Hash + Default>(cx: &mut Cx) -> R {
    let (x, y) = pair::<T>(cx);
    cx.note(|| format!("{x:?} and {y:?}"));
    cx.nontrivial(&(show(&x), show(&y)));
    macro_rules! each {
        ($($n:literal, $W:ty, |$v:ident| $mk:expr, |$u:ident| $un:expr);+ $(;)?) => { $( {
            let mk = |$v: T| -> $W { $mk };
            ord_laws(&mk(x.clone()), &mk(y.clone()), &x, &y, $n, |$u: $W| $un)?;
        } )+ };
    }
    each! {
        "Dynamic<u8>", Dynamic<u8, T>, |v| Dynamic::new(v), |u| u.into_inner();
        "Dynamic<u30>", Dynamic<u30, T>, |v| Dynamic::new(v), |u| u.into_inner();
        "VPadded", VPadded<T, 3>, |v| VPadded::new(v), |u| u.into_inner();
        "Padded", Padded<T, 3>, |v| Padded::new(v), |u| u.into_inner();
        "AutoBox", AutoBox<T>, |v| AutoBox::new(v), |u| u.into_inner();
    }
    let ox = if cx.s.chance(1, 4) { None } else { Some(x.clone()) };
    let oy = if cx.s.chance(1, 4) { None } else { Some(y.clone()) };
    ord_laws(&Nullable::from(ox.clone()), &Nullable::from(oy.clone()), &ox, &oy, "Nullable", |u: Nullable<T>| u.into_inner())?;
    let d = show(&T::default());
    ensure_eq!(show(&AutoBox::<T>::default().into_inner()), d, "default of AutoBox");
    ensure_eq!(show(&VPadded::<T, 2>::default().into_inner()), d, "default of VPadded");
    ensure_eq!(show(&Padded::<T, 2>::default().into_inner()), d, "default of Padded");
    Ok(())
}
pub fn wrapped_display<T: Subject + Display>(cx: &mut Cx) -> R {
    let x = T::gen(&mut cx.s);
    cx.note(|| show(&x));
    cx.nontrivial(&show(&x));
    fmts(&Dynamic::<u8, T>::new(x.clone()), &x, "Dynamic<u8>")?;
    fmts(&Dynamic::<u16, T>::new(x.clone()), &x, "Dynamic<u16>")?;
    fmts(&Dynamic::<u30, T>::new(x.clone()), &x, "Dynamic<u30>")?;
    fmts(&AutoBox::new(x.clone()), &x, "AutoBox")?;
    fmts(&AutoBox::new(Dynamic::<u8, AutoBox<T>>::new(AutoBox::new(x.clone()))), &x, "AutoBox<Dynamic<AutoBox>>")
}
/// Arbitrary-precision numbers against the integers they hold.
pub fn numbers(cx: &mut Cx) -> R {
    let (x, y) = (vcore::model::gen_big(&mut cx.s, true), vcore::model::gen_big(&mut cx.s, true));
    let y = if cx.s.chance(1, 4) { x.clone() } else { y };
    cx.note(|| format!("{x} and {y}"));
    cx.nontrivial(&(&x, &y));
    let (a, b) = (Z::new(x.clone()), Z::new(y.clone()));
    fmts(&a, &x, "Z")?;
    cmp_laws(&a, &b, &x, &y, "Z")?;
    ord_laws(&a, &b, &x, &y, "Z", Z::into_inner)?;
    enc_laws(&a, &b, true, "Z")?;
    ensure_eq!((a.clone().into_inner(), a.as_inner(), &*a), (x.clone(), &x, &x), "Z: contents");
    ensure_eq!(*Z::default(), num_bigint::BigInt::default(), "Z: default");
    let (x, y) = (x.magnitude().clone(), y.magnitude().clone());
    let (a, b) = (N::new(x.clone()), N::from(y.clone()));
    fmts(&a, &x, "N")?;
    cmp_laws(&a, &b, &x, &y, "N")?;
    ord_laws(&a, &b, &x, &y, "N", N::into_inner)?;
    enc_laws(&a, &b, true, "N")?;
    ensure_eq!((a.clone().into_inner(), a.as_inner(), &*a), (x.clone(), &x, &x), "N: contents");
    ensure_eq!(*N::default(), num_bigint::BigUint::default(), "N: default");
    Ok(())
}

pub fn byte_strings(cx: &mut Cx) -> R {
    let s = &mut cx.s;
    let n = s.small_len();
    let v = s.bytes(n);
    let w = match s.draw(2) {
        0 => v.clone(),
        1 => {
            let mut w = v.clone();
            let k = s.range(0, w.len());
            if s.coin() {
                w.truncate(k);
            } else {
                w.insert(k, s.byte());
            }
            w
        }
        _ => {
            let k = s.small_len();
            s.bytes(k)
        }
    };
    cx.note(|| format!("{v:02x?} and {w:02x?}"));
    if !v.is_empty() {
        cx.nontrivial(&(&v, &w));
    }
    let (a, b) = (Bytes::from(v.clone().roomy()), Bytes::from_vec(w.clone().roomy()));
    cmp_laws(&a, &b, &v, &w, "Bytes")?;
    ord_laws(&a, &b, &v, &w, "Bytes", |x: Bytes| x.into_vec())?;
    enc_laws(&a, &b, true, "Bytes")?;
    ensure_eq!(a == b, a.to_bytes() == b.to_bytes(), "Bytes: encodings");
    ensure_eq!(a.to_bytes(), v, "Bytes: encoding");
    ensure_eq!(a.encode::<Vec<u8>>(), v, "Bytes: encode");
    ensure_eq!(AsRef::<Vec<u8>>::as_ref(&a), &v, "Bytes: as_ref");
    ensure_eq!(AsRef::<[u8]>::as_ref(&a), &v[..], "Bytes: as_ref");
    ensure_eq!(&a[..], &v[..], "Bytes: deref");
    ensure_eq!(a.len(), v.len(), "Bytes: length");
    ensure_eq!((&a).into_iter().copied().collect::<Vec<u8>>(), v, "Bytes: iteration");
    ensure_eq!(a.clone().into_iter().collect::<Vec<u8>>(), v, "Bytes: iteration by value");
    ensure_eq!(v.iter().copied().collect::<Bytes>(), a, "Bytes: collecting");
    ensure_eq!(Vec::<u8>::from(a.clone()), v, "Bytes: into Vec");
    ensure_eq!(&*Box::<[u8]>::from(a.clone()), &v[..], "Bytes: into Box");
    ensure_eq!(Bytes::from(v.clone().into_boxed_slice()), a, "Bytes: from Box");
    ensure_eq!(Bytes::from(&v[..]), a, "Bytes: from slice");
    ensure_eq!(Bytes::from(&mut v.clone()[..]), a, "Bytes: from slice");
    if v.len() >= 4 {
        let mut arr = [v[0], v[1], v[2], v[3]];
        ensure_eq!(Bytes::from(arr).into_vec(), v[..4], "Bytes: from array");
        ensure_eq!(Bytes::from(&arr).into_vec(), v[..4], "Bytes: from array");
        ensure_eq!(Bytes::from(&mut arr).into_vec(), v[..4], "Bytes: from array");
    }
    if cx.s.chance(1, 8) {
        // arrays of some length
        macro_rules! arrays {
            ($($n:literal),+) => { $( {
                let mut arr = [0u8; $n];
                for (i, b) in arr.iter_mut().enumerate() {
                    *b = v.get(i % (v.len() + 1)).copied().unwrap_or(i as u8);
                }
                ensure!(Bytes::from(&arr).into_vec() == arr, "Bytes: from a reference to an array of {}", $n);
                ensure!(Bytes::from(arr).into_vec() == arr, "Bytes: from an array of {}", $n);
                ensure!(Bytes::from(&mut arr).into_vec() == arr, "Bytes: from a mutable reference to an array of {}", $n);
                ensure!(Bytes::from(&arr[..]).into_vec() == arr, "Bytes: from a slice of {}", $n);
            } )+ };
        }
        arrays!(0, 1, 16, 33, 128, 255, 256, 300, 1025, 4097, 70000);
    }
    ensure_eq!(Bytes::new().into_vec(), Vec::<u8>::new(), "Bytes: new");
    ensure_eq!(Bytes::default().into_vec(), Vec::<u8>::new(), "Bytes: default");
    let mut c = a.clone();
    c.extend(w.iter().copied());
    let mut cat = v.clone();
    cat.extend(&w);
    ensure_eq!(c.into_vec(), cat, "Bytes: extend");
    let flip = |x: &mut u8| *x ^= 0x5a;
    let mut want = v.clone();
    want.iter_mut().for_each(flip);
    let mut c = a.clone();
    (&mut c).into_iter().for_each(flip);
    ensure_eq!(c.into_vec(), want, "Bytes: iteration by reference");
    let mut c = a.clone();
    c.iter_mut().for_each(flip);
    ensure_eq!(c.into_vec(), want, "Bytes: deref_mut");
    let mut c = a.clone();
    AsMut::<[u8]>::as_mut(&mut c).iter_mut().for_each(flip);
    ensure_eq!(c.into_vec(), want, "Bytes: as_mut");
    let mut c = a.clone();
    AsMut::<Vec<u8>>::as_mut(&mut c).push(3);
    ensure_eq!(c.len(), v.len() + 1, "Bytes: as_mut");
    ensure_eq!(dec::<Bytes>(&v).map_err(|e| format!("{e:?}")), Ok(a), "Bytes: decoding");
    Ok(())
}
/// Byte strings and text of fixed width: the bytes alone decide, not the text they make.
fn fixed_bytes<const W: usize>(cx: &mut Cx) -> R {
    let s = &mut cx.s;
    // few values, most of which are not UTF-8 by themselves
    const ODD: [u8; 12] = [0x00, 0x20, 0x41, 0x61, 0x7f, 0x80, 0xbf, 0xc3, 0xed, 0xf0, 0xfe, 0xff];
    let mut gen = || {
        let mut v = [0u8; W];
        for b in v.iter_mut() {
            *b = if s.chance(1, 6) { s.byte() } else { *s.pick(&ODD) };
        }
        v
    };
    let v: [u8; W] = gen();
    let mut w = gen();
    match cx.s.draw(3) {
        0 => w = v,
        1 if W > 0 => {
            let k = cx.s.range(0, W - 1);
            let b = w[k];
            w = v;
            w[k] = b;
        }
        2 => {
            w = v;
            w.reverse();
        }
        _ => {}
    }
    cx.note(|| format!("{v:02x?} and {w:02x?}"));
    if W > 0 {
        cx.nontrivial(&(&v[..], &w[..]));
    }
    cx.class(if v == w { "equal" } else { "different" });
    let (a, b) = (FixedBytes::<W>::from(v), FixedBytes::<W>::from(w));
    cmp_laws(&a, &b, &v, &w, "FixedBytes")?;
    ord_laws(&a, &b, &v, &w, "FixedBytes", |x: FixedBytes<W>| x.to_array())?;
    enc_laws(&a, &b, true, "FixedBytes")?;
    ensure_eq!(a == b, a.to_bytes() == b.to_bytes(), "FixedBytes: encodings");
    let (a, b) = (FixedString::<W>::from(v), FixedString::<W>::from(w));
    cmp_laws(&a, &b, &v, &w, "FixedString")?;
    ord_laws(&a, &b, &v, &w, "FixedString", |x: FixedString<W>| <[u8; W]>::try_from(x.to_bytes()).unwrap_or([0; W]))?;
    enc_laws(&a, &b, true, "FixedString")?;
    ensure_eq!(a == b, a.to_bytes() == b.to_bytes(), "FixedString: encodings");
    ensure_eq!(a.to_bytes(), v.to_vec(), "FixedString: encoding");
    ensure_eq!(a.as_string_lossy(), String::from_utf8_lossy(&v), "FixedString: text");
    ensure_eq!(a.to_string(), String::from_utf8_lossy(&v), "FixedString: display");
    fmts(&a, &String::from_utf8_lossy(&v), "FixedString")?;
    ensure_eq!(a.is_valid_utf8(), std::str::from_utf8(&v).is_ok(), "FixedString: validity");
    if a.is_valid_utf8() {
        // NOTE: sound, the text has just been found valid
        ensure_eq!(unsafe { a.as_str_unchecked() }, std::str::from_utf8(&v).unwrap_or_default(), "FixedString: text");
    }
    Ok(())
}
pub fn fixed_strings(cx: &mut Cx) -> R {
    match cx.s.draw(4) {
        0 => fixed_bytes::<0>(cx),
        1 => fixed_bytes::<1>(cx),
        2 => fixed_bytes::<2>(cx),
        3 => fixed_bytes::<3>(cx),
        _ => fixed_bytes::<11>(cx),
    }
}
pub fn sequences<T: Subject>(cx: &mut Cx) -> R {
    let n = cx.s.range(0, 6);
    let v: Vec<T> = (0..n).map(|_| T::gen(&mut cx.s)).collect();
    let mut w = v.clone();
    match cx.s.draw(3) {
        0 => {}
        1 if n > 0 => {
            let k = cx.s.range(0, n - 1);
            w[k] = v[k].near(&mut cx.s);
        }
        2 => {
            let k = cx.s.range(0, n);
            w.truncate(k)
        }
        _ => w.push(T::gen(&mut cx.s)),
    }
    cx.note(|| format!("{v:?} and {w:?}"));
    if n > 0 {
        cx.nontrivial(&(show(&v), show(&w)));
    }
    let (a, b): (Sequence<T>, Sequence<T>) = (v.clone().roomy().into(), w.clone().into_iter().collect());
    cmp_laws(&a, &b, &v, &w, "Sequence")?;
    enc_laws(&a, &b, T::EXACT, "Sequence")?;
    let same = |p: &[T], q: &[T]| show(&p) == show(&q);
    ensure_eq!(a.to_bytes(), v.iter().flat_map(|x| x.to_bytes()).collect::<Vec<u8>>(), "Sequence: encoding");
    ensure!(same(a.as_slice(), &v) && same(&a, &v) && same(a.as_ref(), &v), "Sequence: views");
    ensure!(same(&a.clone().into_inner(), &v) && same(&Vec::from(a.clone()), &v), "Sequence: extraction");
    ensure!(same(&Sequence::from_vec(v.clone().roomy()).into_inner(), &v), "Sequence: from_vec");
    ensure!(same(&a.clone().into_iter().collect::<Vec<_>>(), &v), "Sequence: iteration by value");
    ensure!(same(&(&a).into_iter().cloned().collect::<Vec<_>>(), &v), "Sequence: iteration");
    ensure_eq!(a.len(), v.len(), "Sequence: length");
    for i in 0..v.len() {
        ensure!(show(&a[i]) == show(&v[i]) && same(&a[i..], &v[i..]) && same(&a[..i], &v[..i]), "Sequence: element {i}");
    }
    ensure!(guard(|| show(&a[v.len()])).is_err(), "Sequence: an element beyond the end");
    ensure!(Sequence::<T>::new().is_empty() && Sequence::<T>::default().is_empty(), "Sequence: new");
    let mut c = a.clone();
    c.extend(w.iter().cloned());
    let mut cat = v.clone();
    cat.extend(w.iter().cloned());
    ensure!(same(&c, &cat), "Sequence: extend");
    let mut rev = v.clone();
    rev.reverse();
    let mut c = a.clone();
    c.as_mut_slice().reverse();
    ensure!(same(&c, &rev), "Sequence: as_mut_slice");
    let mut c = a.clone();
    c.as_mut().reverse();
    ensure!(same(&c, &rev), "Sequence: as_mut");
    let mut c = a.clone();
    c.reverse();
    ensure!(same(&c, &rev), "Sequence: deref_mut");
    if let Some(x) = w.last() {
        let mut c = a.clone();
        for e in &mut c {
            *e = x.clone();
        }
        ensure!(c.iter().all(|e| show(e) == show(x)) && c.len() == v.len(), "Sequence: iteration by reference");
    }
    if !T::OPEN {
        let back = dec::<Sequence<T>>(&a.to_bytes()).map_err(|e| format!("Sequence does not decode: {e:?}"))?;
        ensure!(same(&back, &v), "Sequence: decodes to {back:?}");
    }
    Ok(())
}
pub fn sequences_ord<T: Subject + Ord + Hash>(cx: &mut Cx) -> R {
    let n = cx.s.range(0, 5);
    let v: Vec<T> = (0..n).map(|_| T::gen(&mut cx.s)).collect();
    let mut w = v.clone();
    if n > 0 && cx.s.coin() {
        let k = cx.s.range(0, n - 1);
        w[k] = v[k].near(&mut cx.s);
    }
    if cx.s.chance(1, 3) {
        w.pop();
    }
    cx.note(|| format!("{v:?} and {w:?}"));
    if n > 0 {
        cx.nontrivial(&(show(&v), show(&w)));
    }
    let (a, b): (Sequence<T>, Sequence<T>) = (v.clone().roomy().into(), w.clone().into());
    ord_laws(&a, &b, &v, &w, "Sequence", |x: Sequence<T>| x.into_inner())?;
    let lim = |v: &Vec<T>| LimSeq::<T, 5>::try_from(v.clone().roomy()).map_err(|e| format!("LimSeq of {v:?}: {e:?}"));
    let (a, b) = (lim(&v)?, lim(&w)?);
    cmp_laws(&a, &b, &v, &w, "LimSeq")?;
    ord_laws(&a, &b, &v, &w, "LimSeq", |x: LimSeq<T, 5>| x.into_vec())?;
    enc_laws(&a, &b, T::EXACT, "LimSeq")?;
    ensure_eq!(show(&a.into_vec()), show(&v), "LimSeq: extraction");
    if v.len() >= 2 && w.len() >= 2 {
        let (v, w) = (v[..2].to_vec(), w[w.len() - 2..].to_vec());
        let fix = |v: &Vec<T>| FixSeq::<T, 2>::try_from(v.clone().roomy()).map_err(|e| format!("FixSeq of {v:?}: {e:?}"));
        let (a, b) = (fix(&v)?, fix(&w)?);
        cmp_laws(&a, &b, &v, &w, "FixSeq")?;
        hash_laws(&a, &b, &v, &w, a == b, "FixSeq")?;
        enc_laws(&a, &b, T::EXACT, "FixSeq")?;
        ensure_eq!(show(&Vec::from(a)), show(&v), "FixSeq: extraction");
    }
    Ok(())
}

cstyle!(Suit, u16, { Heart = 300, Club = 7, Spade = 0, Last = 65535 });
cstyle!(Bit, u8, { One = 1, Zero = 0 });
cstyle!(Wide, u32, { A = 4294967295, B = 0, C = 1073741824, D = 5 });
data!(Shape, u8, shapes, {
    0 => Dot,
    5 => Line(pub u16, pub i8),
    9 => Box { pub w: u32, pub h: Option<u8> },
    3 => Empty(),
    255 => Text(pub Dynamic<u8, String>),
    7 => Same(pub u16, pub i8),
    8 => Num(pub Z)
});
/// A user's type whose equality, order and hash are not those of its encoding.
#[derive(Clone, Debug)]
pub struct Lax(pub u8, pub i8);
impl Lax {
    /// A key of 2 is equal to nothing, not even itself; others are taken modulo 8.
    fn key(&self) -> Option<u8> {
        Some(self.0 % 8).filter(|k| *k != 2)
    }
}
impl PartialEq for Lax {
    fn eq(&self, other: &Self) -> bool {
        self.key().is_some() && self.key() == other.key()
    }
}
impl PartialOrd for Lax {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        // backwards
        Some(other.key()?.cmp(&self.key()?))
    }
}
impl Hash for Lax {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.key().hash(h)
    }
}
impl Estimable for Lax {
    const KNOWN: Option<usize> = Some(2);
    fn unknown(&self) -> usize {
        2
    }
}
impl Encode for Lax {
    fn write_to<U: Target>(&self, buf: &mut U) -> usize {
        self.0.write_to(buf) + self.1.write_to(buf)
    }
}
impl Decode for Lax {
    fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
        Ok(Lax(u8::parse(p)?, i8::parse(p)?))
    }
}
data!(Loose, u8, loose, { 4 => One(pub Lax), 2 => Two(pub Lax, pub Lax), 9 => Named { pub lax: Lax, pub n: u8 }, 1 => Deep(pub Option<Lax>), });
fn lax(s: &mut Src) -> Lax {
    Lax(*s.pick(&[0, 1, 2, 3, 8, 9, 10, 17]), s.draw(1) as i8)
}
fn loose_of(s: &mut Src) -> Loose {
    match s.draw(3) {
        0 => Loose::One(loose::One(lax(s))),
        1 => Loose::Two(loose::Two(lax(s), lax(s))),
        2 => Loose::Named(loose::Named { lax: lax(s), n: s.draw(1) as u8 }),
        _ => Loose::Deep(loose::Deep(if s.coin() { Some(lax(s)) } else { None })),
    }
}
/// Enums compare their payloads as the payloads compare.
pub fn loose_enums(cx: &mut Cx) -> R {
    let x = loose_of(&mut cx.s);
    let y = match cx.s.draw(3) {
        0 => x.clone(),
        _ => loose_of(&mut cx.s),
    };
    cx.note(|| format!("{x:?}, {y:?}"));
    cx.nontrivial(&(show(&x), show(&y)));
    let (eq, ord) = match (&x, &y) {
        (Loose::One(a), Loose::One(b)) => (a.0 == b.0, Some(a.0.partial_cmp(&b.0))),
        (Loose::Two(a), Loose::Two(b)) => ((&a.0, &a.1) == (&b.0, &b.1), Some((&a.0, &a.1).partial_cmp(&(&b.0, &b.1)))),
        (Loose::Named(a), Loose::Named(b)) => ((&a.lax, a.n) == (&b.lax, b.n), Some((&a.lax, a.n).partial_cmp(&(&b.lax, b.n)))),
        (Loose::Deep(a), Loose::Deep(b)) => (a.0 == b.0, Some(a.0.partial_cmp(&b.0))),
        _ => (false, None),
    };
    ensure_eq!(x == y, eq, "equality of {x:?} and {y:?}");
    ensure_eq!(x != y, !eq, "inequality of {x:?} and {y:?}");
    match ord {
        Some(o) => ensure_eq!(x.partial_cmp(&y), o, "order of {x:?} and {y:?}"),
        None => ensure!(x.partial_cmp(&y).is_some_and(|o| o != Ordering::Equal), "{x:?} and {y:?}: order of different variants"),
    }
    if eq {
        ensure_eq!(hash_of(&x), hash_of(&y), "hashes of equal values {x:?} and {y:?}");
    }
    ensure_eq!(show(&dec::<Loose>(&x.to_bytes()).map_err(|e| format!("{x:?} does not decode: {e:?}"))?), show(&x), "decoding");
    // sequences and wrappers of them, likewise
    let (v, w) = (vec![x.clone(), y.clone()], vec![y.clone(), x.clone()]);
    let same = x == y && y == x;
    ensure_eq!(Sequence::from(v.clone()) == Sequence::from(w.clone()), same, "sequences of {x:?} and {y:?}");
    ensure_eq!(AutoBox::new(x.clone()) == AutoBox::new(y.clone()), eq, "boxes of {x:?} and {y:?}");
    ensure_eq!(Nullable::<Loose>::from(Some(x.clone())) == Nullable::<Loose>::from(Some(y.clone())), eq, "options of {x:?} and {y:?}");
    ensure_eq!(Padded::<Loose, 1>::new(x.clone()) == Padded::<Loose, 1>::new(y.clone()), eq, "padded {x:?} and {y:?}");
    ensure_eq!(Dynamic::<u8, Loose>::new(x.clone()) == Dynamic::<u8, Loose>::new(y.clone()), eq, "prefixed {x:?} and {y:?}");
    Ok(())
}
data!(Outer, u16, outers, { 1 => Nest(pub Shape), 256 => Nest2(pub Shape), 513 => Pick(pub Suit), 0 => Nothing, });
fn shape(s: &mut Src) -> Shape {
    match s.draw(6) {
        0 => Shape::Dot(shapes::Dot),
        1 => Shape::Line(shapes::Line(s.draw(2) as u16, s.draw(2) as i8)),
        2 => Shape::Same(shapes::Same(s.draw(2) as u16, s.draw(2) as i8)),
        3 => Shape::Box(shapes::Box { w: s.draw(2) as u32, h: if s.coin() { Some(s.draw(1) as u8) } else { None } }),
        4 => Shape::Empty(shapes::Empty),
        5 => Shape::Num(shapes::Num(Z::gen(s))),
        _ => {
            let n = s.range(0, 2);
            Shape::Text(shapes::Text(Dynamic::new(vcore::model::gen_text(s, n))))
        }
    }
}
/// Which variant, with which contents, without asking the type's own comparison.
fn key(x: &Shape) -> (u8, String) {
    match x {
        Shape::Dot(_) => (0, String::new()),
        Shape::Line(l) => (1, format!("{:?} {:?}", l.0, l.1)),
        Shape::Box(b) => (2, format!("{:?} {:?}", b.w, b.h)),
        Shape::Empty(_) => (3, String::new()),
        Shape::Text(t) => (4, t.0.as_ref().clone()),
        Shape::Same(l) => (5, format!("{:?} {:?}", l.0, l.1)),
        Shape::Num(f) => (6, format!("{:02x?}", f.0.to_bytes())),
    }
}
pub fn data_enums(cx: &mut Cx) -> R {
    let x = shape(&mut cx.s);
    let y = match cx.s.draw(3) {
        0 => x.clone(),
        _ => shape(&mut cx.s),
    };
    let z = shape(&mut cx.s);
    cx.note(|| format!("{x:?}, {y:?}, {z:?}"));
    cx.nontrivial(&(show(&x), show(&y), show(&z)));
    let want = key(&x) == key(&y);
    ensure_eq!(x == y, want, "equality of {x:?} and {y:?}");
    ensure_eq!(x != y, !want, "inequality of {x:?} and {y:?}");
    if want {
        ensure_eq!(hash_of(&x), hash_of(&y), "hashes of equal values");
        ensure_eq!(x.to_bytes(), y.to_bytes(), "encodings of equal values");
    } else {
        ensure!(x.to_bytes() != y.to_bytes(), "{x:?} and {y:?} are encoded alike");
    }
    ensure_eq!(hash_of(&x.clone()), hash_of(&x), "hash of a clone");
    ensure_eq!(key(&x.clone()), key(&x), "a clone");
    ensure_eq!(x.partial_cmp(&y) == Some(Ordering::Equal), want, "{x:?} and {y:?}: order and equality");
    ensure_eq!(x.partial_cmp(&y), y.partial_cmp(&x).map(|o| o.reverse()), "{x:?} and {y:?}: order, reversed");
    if x.partial_cmp(&y) == Some(Ordering::Less) && y.partial_cmp(&z) == Some(Ordering::Less) {
        ensure_eq!(x.partial_cmp(&z), Some(Ordering::Less), "{x:?}, {y:?}, {z:?}: order");
    }
    if key(&x).0 == key(&y).0 {
        // within a variant, the order of the contents
        let inner = match (&x, &y) {
            (Shape::Line(a), Shape::Line(b)) => (a.0, a.1).partial_cmp(&(b.0, b.1)),
            (Shape::Same(a), Shape::Same(b)) => (a.0, a.1).partial_cmp(&(b.0, b.1)),
            (Shape::Box(a), Shape::Box(b)) => (a.w, a.h).partial_cmp(&(b.w, b.h)),
            (Shape::Text(a), Shape::Text(b)) => a.0.as_ref().partial_cmp(b.0.as_ref()),
            (Shape::Num(a), Shape::Num(b)) => a.0.partial_cmp(&b.0),
            _ => Some(Ordering::Equal),
        };
        ensure_eq!(x.partial_cmp(&y), inner, "{x:?} and {y:?}: order within a variant");
    } else {
        ensure!(x.partial_cmp(&y).is_some(), "{x:?} and {y:?}: variants have no order");
    }
    let back = dec::<Shape>(&x.to_bytes()).map_err(|e| format!("{x:?} does not decode: {e:?}"))?;
    ensure_eq!(key(&back), key(&x), "decoding");
    // and within another enum
    let wrap = |s: &mut Src, x: &Shape| match s.draw(2) {
        0 => Outer::Nest(outers::Nest(x.clone())),
        1 => Outer::Nest2(outers::Nest2(x.clone())),
        _ => Outer::Pick(outers::Pick(Suit::Club)),
    };
    let (p, q) = (wrap(&mut cx.s, &x), wrap(&mut cx.s, &y));
    let okey = |o: &Outer| match o {
        Outer::Nest(n) => (0, Some(n.0.clone())),
        Outer::Nest2(n) => (1, Some(n.0.clone())),
        Outer::Pick(_) => (2, None),
        Outer::Nothing(_) => (3, None),
    };
    ensure_eq!(p == q, okey(&p) == okey(&q), "equality of {p:?} and {q:?}");
    if p == q {
        ensure_eq!(hash_of(&p), hash_of(&q), "hashes of equal values");
        ensure_eq!(p.to_bytes(), q.to_bytes(), "encodings of equal values");
    }
    Ok(())
}
/// Which tag a variant has, in the type and on the wire.
pub fn plain_enums(cx: &mut Cx, i: u64) -> R {
    cx.nontrivial(&i);
    macro_rules! all {
        ($t:ident, $b:ty, $($v:ident = $d:literal),+) => {{
            let all: Vec<($t, $b, &str)> = vec![$(($t::$v, $d, stringify!($v))),+];
            for (k, (x, d, n)) in all.iter().enumerate() {
                ensure_eq!(x.get_tagval(), *d, "tag of {n}");
                ensure_eq!(*x as $b, *d, "discriminant of {n}");
                ensure_eq!(x.to_bytes(), d.to_be_bytes().to_vec(), "encoding of {n}");
                ensure_eq!($t::get_name(*d), Some(*n), "name of {d}");
                ensure!($t::is_valid_tag(*d), "{d} is a tag");
                ensure_eq!($t::try_from(*d).map_err(|e| format!("{e:?}")), Ok(*x), "from {d}");
                ensure_eq!(show(x), n.to_string(), "debug text of {n}");
                for (l, (y, e, m)) in all.iter().enumerate() {
                    ensure_eq!(x == y, k == l, "{n} == {m}");
                    ensure_eq!(x != y, k != l, "{n} != {m}");
                    if k == l {
                        ensure_eq!(hash_of(x), hash_of(y), "hash of {n}");
                    }
                    ensure_eq!(x.cmp(y) == Ordering::Equal, k == l, "order of {n} and {m}");
                    ensure_eq!(x.cmp(y), d.cmp(e), "order of {n} and {m}");
                    ensure_eq!(x.partial_cmp(y), Some(x.cmp(y)), "partial order of {n} and {m}");
                }
            }
            ensure_eq!($t::iter_tags().collect::<Vec<$b>>(), all.iter().map(|x| x.1).collect::<Vec<_>>(), "tags");
        }};
    }
    match i {
        0 => all!(Suit, u16, Heart = 300, Club = 7, Spade = 0, Last = 65535),
        1 => all!(Bit, u8, One = 1, Zero = 0),
        _ => all!(Wide, u32, A = 4294967295, B = 0, C = 1073741824, D = 5),
    }
    Ok(())
}
