//! C12, C13, C14: numbers.
use num_bigint::{BigInt, BigUint, Sign};
use std::convert::TryFrom;
use std::fmt::{Binary, Debug, LowerHex, Octal, UpperHex};
use std::hash::Hash;
use tedium::float::RangedFloat;
use tedium::int::RangedInt;
use tedium::*;
use vcore::engine::*;
use vcore::model;
use vcore::{ensure, ensure_eq};

/// Decodes a whole buffer.
pub fn dec<T: Decode>(b: &[u8]) -> Result<T, String> {
    T::try_decode::<Vec<u8>, ByteParser>(b.to_vec().roomy()).map_err(|e| format!("{e:?}"))
}

/// The outcome of an outgoing conversion: a number, a refusal or a panic.
#[derive(Debug, PartialEq, Clone)]
pub enum OutC {
    Num(i128),
    Refused,
    Panicked,
}
/// One outgoing conversion: destination, its bounds, whether it is a `TryFrom`, outcome.
type OutRow = (&'static str, i128, i128, bool, OutC);

/// A range-limited integer type, whatever its backing type.
pub trait Rint: Copy + Eq + Ord + Hash + Debug + Default + Encode + Decode + Binary + Octal + LowerHex + UpperHex + 'static {
    const LO: i128;
    const HI: i128;
    const BLO: i128;
    const BHI: i128;
    const W: usize;
    /// Every conversion into the type from a primitive that can hold `v`.
    fn ins(v: i128) -> Vec<(&'static str, Result<Result<Self, String>, String>)>;
    /// Ways in from the underlying (on-the-wire) number.
    fn raw(v: i128) -> Vec<(&'static str, Result<Result<Self, String>, String>)>;
    fn panicking(v: i128) -> Vec<(&'static str, Result<Self, String>)>;
    fn panicking_raw(v: i128) -> Result<Self, String>;
    fn outs(self) -> Vec<OutRow>;
    fn num(self) -> i128;
    fn underlying(self) -> i128;
    fn underlying_raw(self) -> i128;
    /// Only for numbers on the wire that denote one in range.
    fn from_raw(u: i128) -> Self;
    fn min_v() -> Self;
    fn max_v() -> Self;
    fn consts() -> (i128, i128);
}

macro_rules! ins_for {
    ($v:ident, $out:ident, $($t:ty),+) => { $(
        if let Ok(x) = <$t>::try_from($v) {
            $out.push((stringify!($t), guard(|| <Self as TryFrom<$t>>::try_from(x).map_err(|e| format!("{e:?}")))));
        }
    )+ };
}
macro_rules! rint_impl {
    ($b:ty; total $($tt:ty),+; partial $($pt:ty),+) => {
        impl<const MIN: i32, const MAX: i32> Rint for RangedInt<$b, MIN, MAX> {
            const LO: i128 = MIN as i128;
            const HI: i128 = MAX as i128;
            const BLO: i128 = <$b>::MIN as i128;
            const BHI: i128 = <$b>::MAX as i128;
            const W: usize = std::mem::size_of::<$b>();
            fn ins(v: i128) -> Vec<(&'static str, Result<Result<Self, String>, String>)> {
                let mut out = vec![];
                ins_for!(v, out, u8, i8, u16, i16, u32, i32, u64, i64, usize, isize);
                if let Ok(x) = i32::try_from(v) {
                    out.push(("try_from_i32", guard(|| Self::try_from_i32(x).map_err(|e| format!("{e:?}")))));
                }
                out
            }
            fn raw(v: i128) -> Vec<(&'static str, Result<Result<Self, String>, String>)> {
                let mut out = vec![];
                if let Ok(x) = <$b>::try_from(v) {
                    out.push(("try_from_underlying", guard(|| Self::try_from_underlying(x).map_err(|e| format!("{e:?}")))));
                    let b = x.to_be_bytes();
                    out.push(("decoding", guard(|| dec::<Self>(&b))));
                }
                out
            }
            fn panicking(v: i128) -> Vec<(&'static str, Result<Self, String>)> {
                let mut out = vec![];
                if let Ok(x) = i32::try_from(v) {
                    out.push(("from_i32", guard(|| Self::from_i32(x))));
                }
                out
            }
            fn panicking_raw(v: i128) -> Result<Self, String> {
                let x = <$b>::try_from(v).unwrap();
                guard(|| Self::from_underlying(x))
            }
            fn outs(self) -> Vec<OutRow> {
                let mut out: Vec<OutRow> = vec![];
                $( out.push((stringify!($tt), <$tt>::MIN as i128, <$tt>::MAX as i128, false, match guard(|| <$tt>::from(self)) {
                    Ok(v) => OutC::Num(v as i128), Err(_) => OutC::Panicked })); )+
                $( out.push((stringify!($pt), <$pt>::MIN as i128, <$pt>::MAX as i128, true, match guard(|| <$pt>::try_from(self)) {
                    Ok(Ok(v)) => OutC::Num(v as i128), Ok(Err(_)) => OutC::Refused, Err(_) => OutC::Panicked })); )+
                out
            }
            fn num(self) -> i128 { self.to_i32() as i128 }
            fn underlying(self) -> i128 { self.to_underlying() as i128 }
            // sound for every value obtained through a checked way in
            fn underlying_raw(self) -> i128 { unsafe { self.to_underlying_unchecked() as i128 } }
            fn from_raw(u: i128) -> Self { unsafe { Self::from_underlying_unchecked(<$b>::try_from(u).unwrap()) } }
            fn min_v() -> Self { Self::min_val() }
            fn max_v() -> Self { Self::max_val() }
            fn consts() -> (i128, i128) { (Self::MIN as i128, Self::MAX as i128) }
        }
    };
}
rint_impl!(u8; total u8, u16, i16, u32, i32, u64, i64, usize, isize; partial i8);
rint_impl!(i8; total i8, i16, i32, i64, isize; partial u8, u16, u32, u64, usize);
rint_impl!(i16; total i16, i32, i64, isize; partial i8, u8, u16, u32, u64, usize);
rint_impl!(u16; total u32, i32, u64, i64, usize, isize; partial i8, u8, i16);
rint_impl!(i32; total i32, i64, isize; partial i8, u8, i16, u16, u32, u64, usize);
rint_impl!(u32; total u32, i32, u64, i64, usize, isize; partial i8, u8, i16, u16);

fn off<T: Rint>() -> i128 {
    if T::LO > 0 {
        T::LO
    } else {
        0
    }
}
/// Everything observable about a value which should denote `v`.
fn denotes<T: Rint>(x: T, v: i128, how: &str) -> R {
    ensure_eq!(guard(|| x.num()).map_err(|e| format!("{how}: to_i32 of {v}: {e}"))?, v, "{how}: to_i32");
    ensure_eq!(guard(|| x.underlying()).map_err(|e| format!("{how}: to_underlying of {v}: {e}"))?, v - off::<T>(), "{how}: to_underlying of {v}");
    ensure_eq!(x.underlying_raw(), v - off::<T>(), "{how}: to_underlying_unchecked of {v}");
    ensure_eq!(guard(|| T::from_raw(v - off::<T>()).num()).map_err(|e| format!("{how}: to_i32 of {v}: {e}"))?, v, "{how}: from_underlying_unchecked");
    Ok(())
}
fn formats<T: Rint>(x: T, v: i128) -> R {
    let n = v as i32;
    let f = |g: &dyn Fn() -> String| guard(|| g()).unwrap_or_else(|e| format!("panic: {e}"));
    ensure_eq!(f(&|| format!("{x:b}")), format!("{n:b}"), "binary form of {v}");
    ensure_eq!(f(&|| format!("{x:o}")), format!("{n:o}"), "octal form of {v}");
    ensure_eq!(f(&|| format!("{x:x}")), format!("{n:x}"), "hexadecimal form of {v}");
    ensure_eq!(f(&|| format!("{x:X}")), format!("{n:X}"), "upper hexadecimal form of {v}");
    ensure_eq!(f(&|| format!("{x:#010x}")), format!("{n:#010x}"), "padded hexadecimal form of {v}");
    ensure_eq!(f(&|| format!("{x:<+12o}|")), format!("{n:<+12o}|"), "aligned octal form of {v}");
    Ok(())
}
fn outs<T: Rint>(x: T, v: i128) -> R {
    for (t, lo, hi, fallible, got) in x.outs() {
        let fits = lo <= v && v <= hi;
        let want = match (fits, fallible) {
            (true, _) => OutC::Num(v),
            (false, true) => OutC::Refused,
            (false, false) => OutC::Panicked,
        };
        ensure_eq!(got, want, "conversion of {v} to {t}");
    }
    Ok(())
}
/// The number `v`, offered in every way.
fn offer<T: Rint>(v: i128) -> R {
    let inside = T::LO <= v && v <= T::HI;
    for (how, r) in T::ins(v) {
        let r = r.map_err(|e| format!("{how}: panic for {v}: {e}"))?;
        match (inside, r) {
            (true, Ok(x)) => denotes(x, v, how)?,
            (true, Err(e)) => return Err(format!("{how}: in-range {v} refused: {e}")),
            (false, Ok(x)) => return Err(format!("{how}: out-of-range {v} accepted as {x:?}")),
            (false, Err(_)) => {}
        }
    }
    for (how, r) in T::panicking(v) {
        match (inside, r) {
            (true, Ok(x)) => denotes(x, v, how)?,
            (true, Err(e)) => return Err(format!("{how}: panic for in-range {v}: {e}")),
            (false, Ok(x)) => return Err(format!("{how}: out-of-range {v} accepted as {x:?}")),
            (false, Err(_)) => {}
        }
    }
    Ok(())
}
/// The wire number `u`, offered in every way.
fn offer_raw<T: Rint>(u: i128) -> R {
    if u < T::BLO || u > T::BHI {
        return Ok(());
    }
    let v = u + off::<T>();
    let inside = T::LO <= v && v <= T::HI;
    for (how, r) in T::raw(u) {
        let r = r.map_err(|e| format!("{how}: panic for {u}: {e}"))?;
        match (inside, r) {
            (true, Ok(x)) => denotes(x, v, how)?,
            (true, Err(e)) => return Err(format!("{how}: in-range {v} (wire {u}) refused: {e}")),
            (false, Ok(x)) => return Err(format!("{how}: out-of-range {v} (wire {u}) accepted as {x:?}")),
            (false, Err(_)) => {}
        }
    }
    match (inside, T::panicking_raw(u)) {
        (true, Ok(x)) => denotes(x, v, "from_underlying")?,
        (true, Err(e)) => return Err(format!("from_underlying: panic for in-range {v} (wire {u}): {e}")),
        (false, Ok(x)) => return Err(format!("from_underlying: out-of-range {v} (wire {u}) accepted as {x:?}")),
        (false, Err(_)) => {}
    }
    Ok(())
}
fn value<T: Rint>(v: i128) -> Result<T, String> {
    guard(|| T::raw(v - off::<T>()).remove(0).1.unwrap().unwrap()).map_err(|e| format!("in-range {v} not constructible: {e}"))
}
fn whole<T: Rint>(v: i128) -> R {
    let x: T = value(v)?;
    denotes(x, v, "value")?;
    formats(x, v)?;
    outs(x, v)?;
    let mut wire = vec![];
    model::be(v - off::<T>(), T::W, &mut wire);
    let got: Vec<u8> = guard(|| x.encode::<StrictBuilder>().into_vec()).map_err(|e| format!("encoding {v}: {e}"))?;
    ensure_eq!(got, wire, "wire form of {v}");
    Ok(())
}
fn candidate(s: &mut Src, lo: i128, hi: i128) -> i128 {
    match s.weighted(&[4, 4, 3, 3, 2]) {
        0 => s.i_range(lo, hi),
        1 => {
            let d = s.draw(3) as i128 - 1;
            if s.coin() {
                lo + d
            } else {
                hi + d
            }
        }
        2 => {
            // the bounds seen through a wrap-around of some machine width
            let b = *s.pick(&[lo, hi, 0, (lo + hi) / 2]);
            let w = 1i128 << *s.pick(&[7u32, 8, 15, 16, 30, 31, 32, 63, 64]);
            let d = s.draw(2) as i128 - 1;
            if s.coin() {
                b + w + d
            } else {
                b - w + d
            }
        }
        3 => s.int(i64::MIN as i128, u64::MAX as i128),
        _ => s.i_range(i32::MIN as i128, i32::MAX as i128),
    }
    .clamp(i64::MIN as i128, u64::MAX as i128)
}
pub fn int_case<T: Rint>(cx: &mut Cx) -> R {
    let v = candidate(&mut cx.s, T::LO, T::HI);
    let a = cx.s.i_range(T::LO, T::HI);
    let b = if cx.s.chance(1, 4) { a } else { cx.s.i_range(T::LO, T::HI) };
    let u = candidate(&mut cx.s, T::LO - off::<T>(), T::HI - off::<T>());
    cx.note(|| format!("number {v}, wire {u}, values {a} {b}"));
    if (v - T::LO).abs() <= 1 || (v - T::HI).abs() <= 1 || v < T::LO || v > T::HI {
        cx.nontrivial(&(std::any::type_name::<T>(), v, a));
    }
    cx.class(if v < T::LO {
        "below"
    } else if v > T::HI {
        "above"
    } else {
        "inside"
    });
    offer::<T>(v)?;
    offer_raw::<T>(u)?;
    offer::<T>(u)?;
    whole::<T>(a)?;
    let (x, y): (T, T) = (value(a)?, value(b)?);
    ensure_eq!(x.cmp(&y), a.cmp(&b), "order of {a} and {b}");
    ensure_eq!(x.partial_cmp(&y), a.partial_cmp(&b), "partial order of {a} and {b}");
    ensure_eq!(x == y, a == b, "equality of {a} and {b}");
    if a == b {
        ensure_eq!(hash_of(&x), hash_of(&y), "hash of {a}");
    }
    Ok(())
}
/// Extremes and default, and the exhaustive part: every wire form of one- and
/// two-byte types, every number of small magnitude and around the bounds.
pub fn int_all<T: Rint>(cx: &mut Cx, i: u64) -> R {
    const STEP: i128 = 2048;
    let i = i as i128;
    cx.note(|| format!("block {i}"));
    cx.nontrivial(&(std::any::type_name::<T>(), i));
    if i == 0 {
        let (lo, hi) = (guard(T::min_v)?, guard(T::max_v)?);
        denotes(lo, T::LO, "min_val")?;
        denotes(hi, T::HI, "max_val")?;
        whole::<T>(T::LO)?;
        whole::<T>(T::HI)?;
        let d = guard(T::default).map_err(|e| format!("default: {e}"))?;
        let n = guard(|| d.num()).map_err(|e| format!("default is not a valid value: {e}"))?;
        ensure!(T::LO <= n && n <= T::HI, "the default value denotes {n}");
        denotes(d, n, "default")?;
        if T::LO <= 0 && 0 <= T::HI {
            ensure_eq!(n, 0, "default of a range which contains zero");
        }
        let (clo, chi) = T::consts();
        if T::BLO <= T::LO && T::LO <= T::BHI {
            ensure_eq!(clo, T::LO, "MIN");
        }
        if T::BLO <= T::HI && T::HI <= T::BHI {
            ensure_eq!(chi, T::HI, "MAX");
        }
        for d in -600..=600 {
            for v in [T::LO + d, T::HI + d] {
                offer::<T>(v)?;
                offer_raw::<T>(v)?;
                if T::LO <= v && v <= T::HI {
                    whole::<T>(v)?;
                }
            }
        }
        return Ok(());
    }
    let from = -69632 + (i - 1) * STEP;
    for v in from..from + STEP {
        offer_raw::<T>(v)?;
        if T::W == 1 && v.abs() < 1024 || (v + i) % 16 == 0 {
            offer::<T>(v)?;
        }
    }
    for v in (from..from + STEP).step_by(7) {
        if T::LO <= v && v <= T::HI {
            whole::<T>(v)?;
        }
    }
    Ok(())
}
pub const INT_BLOCKS: u64 = 1 + 68;

// ------------------------------------------------------------------ floats

fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits()
}
fn near(s: &mut Src, b: f64) -> f64 {
    let bits = b.to_bits();
    let d = s.draw(4) as i64 - 2;
    f64::from_bits((bits as i64).wrapping_add(d) as u64)
}
pub fn float_case<const LO: u64, const HI: u64>(cx: &mut Cx) -> R {
    let (lo, hi) = (f64::from_bits(LO), f64::from_bits(HI));
    let v = match cx.s.weighted(&[4, 2, 2, 2, 2, 2]) {
        0 => model::gen_f64_in(&mut cx.s, lo, hi),
        1 => near(&mut cx.s, lo),
        2 => near(&mut cx.s, hi),
        3 => -near(&mut cx.s, hi),
        4 => f64::from_bits((*cx.s.pick(&[0x7ff0_0000_0000_0000u64, 0xfff0_0000_0000_0000, 0, 1 << 63])).wrapping_add(cx.s.int(0, 1 << 51) as u64)),
        _ => model::gen_f64(&mut cx.s),
    };
    let w = match cx.s.weighted(&[3, 2, 2, 2]) {
        0 => v as f32,
        1 => f32::from_bits(cx.s.draw(u32::MAX as u64) as u32),
        2 => f32::from_bits((lo as f32).to_bits().wrapping_add(cx.s.draw(4) as u32).wrapping_sub(2)),
        _ => f32::from_bits((hi as f32).to_bits().wrapping_add(cx.s.draw(4) as u32).wrapping_sub(2)),
    };
    let inside = |v: f64| v >= lo && v <= hi;
    cx.note(|| format!("f64 {v:e} ({:016x}), f32 {w:e} ({:08x}) against {lo:e}..={hi:e}", v.to_bits(), w.to_bits()));
    if !v.is_finite() || !inside(v) || v == lo || v == hi || v == 0.0 {
        cx.nontrivial(&(LO, HI, v.to_bits()));
    }
    cx.class(if v.is_nan() {
        "nan"
    } else if inside(v) {
        "inside"
    } else {
        "outside"
    });
    type F<const LO: u64, const HI: u64> = RangedFloat<LO, HI>;
    let judge = |how: &str, v: f64, got: Result<Result<f64, String>, String>| -> R {
        let got = got.map_err(|e| format!("{how}: panic for {v:e}: {e}"))?;
        match (inside(v), got) {
            (true, Ok(x)) => {
                ensure!(same(x, v), "{how}: {v:e} ({:016x}) became {x:e} ({:016x})", v.to_bits(), x.to_bits());
                Ok(())
            }
            (true, Err(e)) => Err(format!("{how}: in-range {v:e} refused: {e}")),
            (false, Ok(x)) => Err(format!("{how}: {v:e} accepted as {x:e}")),
            (false, Err(_)) => Ok(()),
        }
    };
    let e = |e: tedium::error::BoundsError<f64>| format!("{e:?}");
    judge("try_from_f64", v, guard(|| F::<LO, HI>::try_from_f64(v).map(|x| *x.as_f64()).map_err(e)))?;
    judge("TryFrom<f64>", v, guard(|| <F<LO, HI> as TryFrom<f64>>::try_from(v).map(|x| f64::from(x)).map_err(e)))?;
    judge("prevalidate_f64", v, guard(|| F::<LO, HI>::prevalidate_f64(v).map_err(e)))?;
    judge("decoding", v, guard(|| dec::<F<LO, HI>>(&v.to_bits().to_be_bytes()).map(|x| f64::from(x))))?;
    judge("get_validated", v, guard(|| unsafe { F::<LO, HI>::from_f64_unchecked(v) }.get_validated().map_err(e)))?;
    judge("TryFrom<f32>", w as f64, guard(|| <F<LO, HI> as TryFrom<f32>>::try_from(w).map(|x| f64::from(x)).map_err(e)))?;
    judge("prevalidate_f32", w as f64, guard(|| F::<LO, HI>::prevalidate_f32(w).map_err(e)))?;
    match (inside(v), guard(|| F::<LO, HI>::from_f64(v))) {
        (true, Ok(x)) => ensure!(same(*x.as_f64(), v), "from_f64: {v:e} became {:e}", x.as_f64()),
        (true, Err(e)) => return Err(format!("from_f64: panic for in-range {v:e}: {e}")),
        (false, Ok(x)) => return Err(format!("from_f64: {v:e} accepted as {:e}", x.as_f64())),
        (false, Err(_)) => {}
    }
    if let Ok(x) = F::<LO, HI>::try_from_f64(v) {
        let b: Vec<u8> = x.encode::<StrictBuilder>().into_vec();
        ensure_eq!(b, v.to_bits().to_be_bytes().to_vec(), "wire form of {v:e}");
        let y = F::<LO, HI>::from_f64(if cx.s.coin() { lo } else { hi });
        ensure_eq!(x.partial_cmp(&y), v.partial_cmp(y.as_f64()), "order of {v:e} and {:e}", y.as_f64());
        ensure_eq!(x == y, v == *y.as_f64(), "equality of {v:e} and {:e}", y.as_f64());
    }
    let d = guard(|| F::<LO, HI>::default()).map_err(|e| format!("default: {e}"))?;
    ensure!(inside(*d.as_f64()), "the default {:e} is out of bounds", d.as_f64());
    // the permitted value closest to zero
    let nearest = if inside(0.0) { 0.0 } else if lo > 0.0 { lo } else { hi };
    ensure!(*d.as_f64() == nearest, "the default is {:e} though {nearest:e} is closer to zero", d.as_f64());
    ensure!(same(F::<LO, HI>::MIN_F64, lo) && same(F::<LO, HI>::MAX_F64, hi), "MIN_F64 or MAX_F64");
    ensure!(same(*F::<LO, HI>::MIN.as_f64(), lo) && same(*F::<LO, HI>::MAX.as_f64(), hi), "MIN or MAX");
    Ok(())
}

// ------------------------------------------------------------------ zarith

fn narrow<T: TryFrom<S>, S: Clone>(s: &S, v: &BigInt, lo: i128, hi: i128, num: impl Fn(T) -> i128, name: &str) -> R {
    let fits = *v >= BigInt::from(lo) && *v <= BigInt::from(hi);
    let got = guard(|| T::try_from(s.clone()).ok()).map_err(|e| format!("conversion of {v} to {name} panics: {e}"))?;
    match (fits, got) {
        (true, Some(x)) => ensure_eq!(BigInt::from(num(x)), *v, "conversion of {v} to {name}"),
        (true, None) => return Err(format!("conversion of {v} to {name} refused")),
        (false, Some(x)) => return Err(format!("conversion of {v} to {name} gives {}", num(x))),
        (false, None) => {}
    }
    Ok(())
}
macro_rules! narrows {
    ($x:expr, $v:expr, $s:ty, $($t:ty),+) => { $( narrow::<$t, $s>(&$x, &$v, <$t>::MIN as i128, <$t>::MAX as i128, |x| x as i128, stringify!($t))?; )+ };
}

fn form(bytes: &[u8]) -> R {
    let n = bytes.len();
    ensure!(n > 0, "empty encoding");
    for (i, b) in bytes.iter().enumerate() {
        ensure_eq!(b & 0x80 != 0, i + 1 < n, "continuation bit of byte {i} of {bytes:02x?}");
    }
    ensure!(n == 1 || bytes[n - 1] != 0, "superfluous final byte in {bytes:02x?}");
    Ok(())
}
fn read_back<T: Decode + PartialEq + Debug>(x: &T, bytes: &[u8], tail: &[u8]) -> R {
    let mut all = bytes.to_vec();
    all.extend_from_slice(tail);
    macro_rules! with {
        ($p:expr, $n:expr) => {{
            let mut p = $p;
            let got = guard(|| T::parse(&mut p)).map_err(|e| format!("{}: decoding {bytes:02x?} panics: {e}", $n))?;
            let got = got.map_err(|e| format!("{}: decoding {bytes:02x?}: {e:?}", $n))?;
            ensure_eq!(got, *x, "{}: decoding {bytes:02x?}", $n);
            ensure_eq!(all.len() - p.remainder(), bytes.len(), "{}: bytes consumed of {all:02x?}", $n);
        }};
    }
    with!(ByteParser::from_buffer(tedium::parse::buffer::VecBuffer::from(all.clone().roomy())), "ByteParser");
    with!(SliceParser::from_buffer(tedium::parse::buffer::SliceBuffer::from(&all[..])), "SliceParser");
    with!(MemoParser::from_buffer(tedium::parse::buffer::VecBuffer::from(all.clone().roomy())), "MemoParser");
    Ok(())
}
fn nat(v: &BigUint, tail: &[u8]) -> R {
    let x = N::new(v.clone());
    let bytes: Vec<u8> = guard(|| x.encode::<StrictBuilder>().into_vec()).map_err(|e| format!("encoding {v}: {e}"))?;
    form(&bytes)?;
    let mut want = vec![];
    model::enc_n(&BigInt::from(v.clone()), &mut want);
    ensure_eq!(bytes, want, "encoding of natural {v}");
    read_back(&x, &bytes, tail)
}
fn int(v: &BigInt, tail: &[u8]) -> R {
    let x = Z::new(v.clone());
    let bytes: Vec<u8> = guard(|| x.encode::<StrictBuilder>().into_vec()).map_err(|e| format!("encoding {v}: {e}"))?;
    form(&bytes)?;
    ensure_eq!(bytes[0] & 0x40 != 0, v.sign() == Sign::Minus, "sign bit of {v}");
    let mut want = vec![];
    model::enc_z(v, &mut want);
    ensure_eq!(bytes, want, "encoding of integer {v}");
    read_back(&x, &bytes, tail)
}
fn machine(s: &mut Src) -> BigInt {
    let e = *s.pick(&[7u32, 8, 15, 16, 31, 32, 63, 64]);
    let x = (BigInt::from(1u8) << e) + BigInt::from(s.draw(4) as i64 - 2);
    if s.coin() {
        -x
    } else {
        x
    }
}
pub fn big_case(cx: &mut Cx) -> R {
    let v = if cx.s.chance(1, 400) {
        // thousands of digits in the encoding
        let n = *cx.s.pick(&[3000usize, 3600, 7300, 14400]) + cx.s.range(0, 40);
        let m = BigUint::from_bytes_le(&cx.s.stretch(n)) | (BigUint::from(1u8) << (8 * n));
        BigInt::from_biguint(if cx.s.coin() { Sign::Minus } else { Sign::Plus }, m)
    } else if cx.s.chance(1, 4) {
        machine(&mut cx.s)
    } else {
        model::gen_huge(&mut cx.s, true)
    };
    let w = if cx.s.chance(1, 3) { v.clone() } else { model::gen_big(&mut cx.s, true) };
    let tail = {
        let n = cx.s.range(0, 3);
        cx.s.bytes(n)
    };
    cx.note(|| format!("{v} and {w}, followed by {tail:02x?}"));
    if v.bits() > 6 {
        cx.nontrivial(&v);
    }
    cx.class(match v.bits() {
        0..=6 => "one byte",
        7..=64 => "up to 64 bits",
        65..=200 => "up to 200 bits",
        _ => "more",
    });
    int(&v, &tail)?;
    let z = Z::new(v.clone());
    narrows!(z, v, Z, u8, i8, u16, i16, u32, i32, u64, i64);
    ensure_eq!(z.to_string(), v.to_string(), "display");
    ensure_eq!(format!("{z:>30}"), format!("{v:>30}"), "display");
    ensure_eq!(z.cmp(&Z::new(w.clone())), v.cmp(&w), "order of {v} and {w}");
    ensure_eq!(z == Z::new(w.clone()), v == w, "equality of {v} and {w}");
    ensure_eq!(z.as_inner(), &v, "as_inner");
    ensure_eq!(&*z, &v, "deref");
    ensure_eq!(z.bits(), v.bits(), "method reached by deref");
    ensure_eq!(BigInt::from(z.clone()), v, "From<Z> for BigInt");
    ensure_eq!(z.into_inner(), v, "into_inner");
    let (a, b) = (v.magnitude().clone(), w.magnitude().clone());
    nat(&a, &tail)?;
    let n = N::from(a.clone());
    let av = BigInt::from(a.clone());
    narrows!(n, av, N, u8, u16, u32, u64);
    ensure_eq!(n.to_string(), a.to_string(), "display");
    ensure_eq!(format!("{n:>30}"), format!("{a:>30}"), "display");
    ensure_eq!(n.cmp(&N::new(b.clone())), a.cmp(&b), "order of {a} and {b}");
    ensure_eq!(n == N::new(b.clone()), a == b, "equality of {a} and {b}");
    ensure_eq!(n.as_inner(), &a, "as_inner");
    ensure_eq!(&*n, &a, "deref");
    ensure_eq!(BigUint::from(n.clone()), a, "From<N> for BigUint");
    ensure_eq!(n.into_inner(), a, "into_inner");
    Ok(())
}
/// Every number up to 2^21 (and its negative), in blocks of 4096.
pub const BIG_BLOCKS: u64 = 512;
pub fn big_all(cx: &mut Cx, i: u64) -> R {
    cx.nontrivial(&i);
    cx.note(|| format!("block {i}"));
    for v in i * 4096..(i + 1) * 4096 {
        nat(&BigUint::from(v), &[0xff])?;
        int(&BigInt::from(v), &[0x80])?;
        int(&-BigInt::from(v), &[0x01])?;
    }
    Ok(())
}
/// Exhaustively 2^k + d for every k to 600.
pub fn big_powers(cx: &mut Cx, i: u64) -> R {
    cx.nontrivial(&i);
    cx.note(|| format!("2^{i}"));
    let p = BigInt::from(1u8) << i as usize;
    for d in -3i32..=3 {
        let v = &p + BigInt::from(d);
        int(&v, &[0])?;
        int(&-v.clone(), &[0])?;
        nat(v.magnitude(), &[0])?;
        let z = Z::new(v.clone());
        narrows!(z, v, Z, u8, i8, u16, i16, u32, i32, u64, i64);
        let n = N::new(v.magnitude().clone());
        let v = BigInt::from(v.magnitude().clone());
        narrows!(n, v, N, u8, u16, u32, u64);
    }
    Ok(())
}

/// The types of C12.
#[macro_export]
macro_rules! rints {
    ($m:ident, $t:ident) => {
        $m!($t; u8 0 10, u8 3 12, u8 0 255, u8 7 7, u8 200 455, u8 256 300, u8 1 256, u8 0 0,
            i8 -5 5, i8 -128 127, i8 -100 -90, i8 3 100, i8 0 127, i8 -1 -1,
            u16 0 1000, u16 250 260, u16 1 65536, u16 0 65535, u16 70000 135535,
            i16 -3000 17, i16 40000 40010, i16 -32768 32767, i16 5 32772, i16 -32768 -32000,
            u32 0 1000000, u32 1 10, u32 1073741000 1073741823, u32 0 1073741823,
            i32 -7 0, i32 5 6, i32 -1073741824 1073741823, i32 -1073741824 -1073741000, i32 1 1073741823);
    };
}
