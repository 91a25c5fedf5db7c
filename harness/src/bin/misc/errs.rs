//! C24 (texts and sources of errors) and C12/C13 (the bound checks themselves,
//! ranges without any number in them).
use std::collections::HashMap;
use std::error::Error;
use std::fmt::Debug;
use tedium::conv::error::DecodeError;
use tedium::error::{BoundsError, HexConvError, LengthError, WidthError};
use tedium::float::RangedFloat;
use tedium::int::RangedInt;
use tedium::parse::cleanup::InvariantError;
use tedium::parse::error::{ExternalError, InternalError, ParseError, TagError, TokenError, WindowError};
use tedium::*;
use vcore::engine::*;
use vcore::{ensure, ensure_eq};

/// The whole numbers a text spells out in decimal.
fn numbers(text: &str) -> Vec<i128> {
    let b = text.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let neg = st > 0 && b[st - 1] == b'-';
            if let Ok(n) = text[st..i].parse::<i128>() {
                out.push(if neg { -n } else { n });
            }
        } else {
            i += 1;
        }
    }
    out
}
fn spells(text: &str, wanted: &[i128]) -> R {
    let mut have: HashMap<i128, usize> = HashMap::new();
    for n in numbers(text) {
        *have.entry(n).or_default() += 1;
    }
    for w in wanted {
        let n = have.entry(*w).or_default();
        ensure!(*n > 0, "the text {text:?} does not name {w}");
        *n -= 1;
    }
    Ok(())
}
/// Where the words before a number say that it is the bound, it is the bound.
/// (How the text is worded is left open: only bounds named as such are judged.)
fn bounded_by(text: &str, bound: i128, actual: i128) -> R {
    if bound == actual || numbers(text).len() != 2 {
        return Ok(());
    }
    let low = text.to_lowercase();
    let mut words = String::new();
    let mut digits = String::new();
    for c in low.chars().chain([' ']) {
        if c.is_ascii_digit() {
            digits.push(c);
            continue;
        }
        if let Ok(n) = std::mem::take(&mut digits).parse::<i128>() {
            let neg = words.ends_with('-');
            let n = if neg { -n } else { n };
            let named = ["limit", "require", "bound", "at most", "exactly", "maxim", "minim", "must be", "expected"].iter().any(|w| words.contains(w));
            ensure!(!named || n == bound, "the text {text:?} gives {n} as the bound instead of {bound}");
            words.clear();
        }
        words.push(c);
    }
    Ok(())
}
/// Foreign errors, one the cause of the other.
#[derive(Debug)]
struct Inner(u64);
#[derive(Debug)]
struct Outer(Inner);
impl std::fmt::Display for Inner {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "inner {}", self.0)
    }
}
impl std::fmt::Display for Outer {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "outer of {}", self.0 .0)
    }
}
impl Error for Inner {}
impl Error for Outer {
    fn source(&self) -> Option<&(dyn Error + 'static)> {
        Some(&self.0)
    }
}
/// The texts along the chain of sources, from the outermost error on.
fn chain(e: &(dyn Error + 'static)) -> Vec<String> {
    let mut out = vec![];
    let mut cur = Some(e);
    while let Some(x) = cur {
        out.push(x.to_string());
        cur = x.source();
    }
    out
}
/// `leaf`, wrapped in every way the error types offer, keeps its text and is
/// found at the end of the chain of sources.
fn wrapped_in<E>(leaf: E, what: &str) -> R
where
    E: Error + Clone + 'static,
    ParseError: From<E>,
{
    let text = leaf.to_string();
    let p = ParseError::from(leaf.clone());
    ensure!(p.to_string().contains(&text), "{what}: as a parse error reads {p:?}, which lacks {text:?}");
    let c = chain(&p);
    ensure!(c.last() == Some(&text), "{what}: chain of sources of {p:?} is {c:?}");
    let d = DecodeError::from(p);
    ensure!(d.to_string().contains(&text), "{what}: as a decode error reads {d}, which lacks {text:?}");
    let c = chain(&d);
    ensure!(c.len() >= 3 && c.last() == Some(&text), "{what}: chain of sources of {d:?} is {c:?}");
    Ok(())
}
fn quantity(s: &mut Src) -> usize {
    match s.range(0, 3) {
        0 => s.range(0, 300),
        1 => s.range(0, 1 << 31),
        2 => usize::MAX - s.range(0, 2),
        _ => s.range(1, 9),
    }
}

pub fn texts(cx: &mut Cx) -> R {
    let (a, b, c) = (quantity(&mut cx.s), quantity(&mut cx.s), quantity(&mut cx.s));
    let (ia, ib, ic) = (a as i128, b as i128, c as i128);
    let kind = cx.s.range(0, 13);
    cx.nontrivial(&(kind, a, b, c));
    cx.note(|| format!("error kind {kind}: {a}, {b}, {c}"));
    match kind {
        0 => {
            let e = WindowError::ConsumeWouldExceedLimit { offset: a, requested: b, limit: c };
            spells(&e.to_string(), &[ia, ib, ic])?;
            wrapped_in(e, "consume")
        }
        1 => {
            let e = WindowError::OpenWouldExceedBuffer { bytes_left: a, request: b };
            spells(&e.to_string(), if a == 0 { &[][..] } else { std::slice::from_ref(&ia) })?;
            spells(&e.to_string(), &[ib])?;
            wrapped_in(e, "open in buffer")
        }
        2 => {
            let e = WindowError::OpenWouldExceedWindow { limit: a, request: b };
            spells(&e.to_string(), &[ia, ib])?;
            wrapped_in(e, "open in window")
        }
        3 => {
            let e = WindowError::CloseWithResidue { residual: a };
            spells(&e.to_string(), &[ia])?;
            wrapped_in(e, "close")?;
            wrapped_in(WindowError::CloseWithoutWindow, "close without window")
        }
        4 => {
            let e = WidthError::TooWide { limit: a, actual: b };
            spells(&e.to_string(), &[ia, ib])?;
            bounded_by(&e.to_string(), ia, ib)?;
            wrapped_in(e, "too wide")
        }
        5 => {
            let e = WidthError::WrongWidth { exact: a, actual: b };
            spells(&e.to_string(), &[ia, ib])?;
            bounded_by(&e.to_string(), ia, ib)?;
            wrapped_in(e, "wrong width")
        }
        6 => {
            let e = WidthError::InvalidWidth { valid: &[4, 8, 16], actual: a };
            spells(&e.to_string(), &[4, 8, 16, ia])?;
            wrapped_in(e, "invalid width")
        }
        7 => {
            let e = LengthError::TooLong { limit: a, actual: b };
            spells(&e.to_string(), &[ia, ib])?;
            bounded_by(&e.to_string(), ia, ib)?;
            wrapped_in(e, "too long")
        }
        8 => {
            let e = LengthError::WrongLength { exact: a, actual: b };
            spells(&e.to_string(), &[ia, ib])?;
            bounded_by(&e.to_string(), ia, ib)?;
            wrapped_in(e, "wrong length")
        }
        9 => {
            let (x, y) = (cx.s.int(i64::MIN as i128, i64::MAX as i128) as i64, cx.s.int(-(1 << 40), 1 << 40) as i64);
            for e in [
                BoundsError::Underflow { min: x, val: y },
                BoundsError::Overflow { max: x, val: y },
                BoundsError::IllegalNegative { min: x, val: y },
                BoundsError::InvalidBounds { min: x, max: y },
            ] {
                spells(&e.to_string(), &[x as i128, y as i128]).map_err(|m| format!("{e:?}: {m}"))?;
                if matches!(e, BoundsError::Underflow { .. } | BoundsError::Overflow { .. }) {
                    bounded_by(&e.to_string(), x as i128, y as i128)?;
                }
                wrapped_in(e, "integer bounds")?;
            }
            let (x, y) = (x as f64 / 8.0, y as f64 / 16.0);
            for e in [BoundsError::Underflow { min: x, val: y }, BoundsError::Overflow { max: x, val: y }, BoundsError::InvalidBounds { min: x, max: y }] {
                let t = e.to_string();
                ensure!(t.contains(&x.to_string()) && t.contains(&y.to_string()), "{e:?}: the text {t:?} does not name {x} and {y}");
                wrapped_in(e, "float bounds")?;
            }
            Ok(())
        }
        10 => {
            let n = cx.s.range(0, 12);
            let bytes = cx.s.bytes(n);
            let spelled = crate::text::plain_hex(&bytes);
            for e in [TokenError::NonTerminating(bytes.clone()), TokenError::NonNullPaddingByte { padding: bytes.clone() }] {
                let t = e.to_string();
                ensure!(t.ends_with(&spelled), "{e:?} reads {t:?}");
                wrapped_in(e, "token")?;
            }
            let e = TokenError::InvalidBoolean(a as u8);
            ensure!(e.to_string().contains(&format!("{:02x}", a as u8)), "{e:?} reads {e}");
            wrapped_in(e, "boolean")
        }
        11 => {
            macro_rules! tag {
                ($($t:ty),+) => { $(
                    let v = a as $t;
                    for (e, known) in [
                        (TagError::<$t>::new(v, "Some::Type", Some(vec![b as $t])), true),
                        (TagError::<$t>::with_type::<u64>(v, None), false),
                        (TagError::<$t>::from(v), false),
                    ] {
                        let t = e.to_string();
                        ensure!(t.contains(&format!("0x{v:x}")) || t.contains(&format!("{v:02x}")), "{e:?} reads {t:?}, without the tag");
                        ensure!(!known || t.contains("Some::Type"), "{e:?} reads {t:?}, without the type");
                        let dbg = format!("{e:?}");
                        spells(&dbg, &[v as i128]).map_err(|m| format!("{m} (debug form)"))?;
                        ensure!(!known || spells(&dbg, &[b as $t as i128]).is_ok(), "{dbg} lacks the valid tag {}", b as $t);
                        let p = ParseError::from(e.clone());
                        ensure!(p.to_string().contains(&t), "{p:?} reads {p}");
                        let c = chain(&p);
                        ensure!(c.len() == 3 && c[2] == t, "chain of sources of {p:?} is {c:?}");
                        let kind = match &p {
                            ParseError::Token(TokenError::InvalidTagU8(_)) => 1,
                            ParseError::Token(TokenError::InvalidTagU16(_)) => 2,
                            ParseError::Token(TokenError::InvalidTagU30(_)) => 4,
                            _ => 0,
                        };
                        ensure_eq!(kind, std::mem::size_of::<$t>(), "width of the tag in {p:?}");
                    }
                )+ };
            }
            tag!(u8, u16, u32);
            Ok(())
        }
        12 => {
            // what finalising a parser or an internal conversion may report
            let w = WindowError::ConsumeWouldExceedLimit { offset: a, requested: b, limit: c };
            let t = w.to_string();
            for e in [
                InvariantError::ErrorCaseUnexpected(w.clone()),
                InvariantError::ErrorKindUnexpected(ParseError::from(w.clone())),
                InvariantError::ErrorUnexpected(ParseError::from(w)),
            ] {
                ensure!(e.to_string().contains(&t), "{e:?} reads {e}, which lacks {t:?}");
                ensure!(chain(&e).last() == Some(&t), "chain of sources of {e:?} is {:?}", chain(&e));
                let own = e.to_string();
                let d = DecodeError::from(e);
                ensure!(d.to_string().contains(&t), "as a decode error reads {d}, which lacks {t:?}");
                let ch = chain(&d);
                ensure!(ch.len() >= 3 && ch[1] == own && ch.last() == Some(&t), "chain of sources of {d:?} is {ch:?}");
            }
            let n = a % 9;
            if n != 4 {
                let e = <[u8; 4]>::try_from(&[0u8; 9][..n]).unwrap_err();
                let t = e.to_string();
                let p = ParseError::from(InternalError::from(e));
                ensure!(chain(&p).last() == Some(&t), "chain of sources of {p:?} is {:?}", chain(&p));
            }
            Ok(())
        }
        _ => {
            // hexadecimal text as the cause, and foreign errors
            for (bad, odd) in [("abc", true), ("zz", false)] {
                let h = HexString::from_hex(bad).unwrap_err();
                ensure_eq!(matches!(h, HexConvError::OddParity(_)), odd, "kind of {h:?}");
                ensure!(format!("{h:?}").contains(bad), "debug form {h:?} lacks the text {bad}");
                let d = DecodeError::from(h.clone());
                ensure!(d.to_string().contains(&h.to_string()), "{d} lacks {h}");
                ensure_eq!(chain(&d), vec![d.to_string(), h.to_string()], "chain of sources");
            }
            let utf = String::from_utf8(vec![b'a', 0xff]).unwrap_err();
            let t = utf.to_string();
            let p = ParseError::from(utf);
            ensure!(matches!(p, ParseError::External(ExternalError::UncoercableString(_))), "{p:?}");
            ensure!(p.to_string().contains(&t) && chain(&p).last() == Some(&t), "{p} from {t}: {:?}", chain(&p));
            let p = ParseError::reify(Outer(Inner(a as u64)));
            let mut cur: Option<&(dyn Error + 'static)> = Some(&p);
            let mut found = vec![];
            while let Some(e) = cur {
                if let Some(Outer(i)) = e.downcast_ref::<Outer>() {
                    found.push(("outer", i.0));
                } else if let Some(i) = e.downcast_ref::<Inner>() {
                    found.push(("inner", i.0));
                }
                cur = e.source();
            }
            ensure_eq!(found, vec![("outer", a as u64), ("inner", a as u64)], "causes found along the sources of {p:?}");
            let c = chain(&DecodeError::from(p));
            ensure!(c.len() >= 4 && c[c.len() - 2..] == [format!("outer of {a}"), format!("inner {a}")], "chain of sources: {c:?}");
            let io = std::io::Error::new(std::io::ErrorKind::Other, format!("foreign {a}"));
            let p = ParseError::reify(io);
            ensure_eq!(p.to_string(), format!("foreign {a}"), "text of a foreign error");
            ensure_eq!(chain(&p).last().cloned(), Some(format!("foreign {a}")), "source of a foreign error");
            Ok(())
        }
    }
}

/// The bound checks themselves, over every mix of number types.
pub fn restrict(cx: &mut Cx) -> R {
    fn expect(v: i128, lo: i128, hi: i128) -> Result<(), BoundsError<i64>> {
        let n = |x: i128| x as i64;
        if lo > 0 {
            // the number is an offset from the lower bound
            if v < 0 {
                Err(BoundsError::IllegalNegative { min: n(lo), val: n(v) })
            } else if lo > hi {
                Err(BoundsError::InvalidBounds { min: n(lo), max: n(hi) })
            } else if v > hi - lo {
                Err(BoundsError::Overflow { max: n(hi - lo), val: n(v) })
            } else {
                Ok(())
            }
        } else if lo > hi {
            Err(BoundsError::InvalidBounds { min: n(lo), max: n(hi) })
        } else if v < lo {
            Err(BoundsError::Underflow { min: n(lo), val: n(v) })
        } else if v > hi {
            Err(BoundsError::Overflow { max: n(hi), val: n(v) })
        } else {
            Ok(())
        }
    }
    fn one<T>(s: &mut Src, cx: &mut String, name: &str, v: T, w: i128, lo: i32, hi: i32) -> R
    where
        T: Copy + TryInto<i64> + PartialEq + Debug,
        BoundsError<i64>: From<<T as TryInto<i64>>::Error>,
    {
        let _ = s;
        *cx = format!("{name} {v:?} in {lo}..={hi}");
        let got = guard(|| BoundsError::<i64>::restrict(v, lo, hi)).map_err(|p| format!("panics: {p}"))?;
        match (got, expect(w, lo as i128, hi as i128)) {
            (Ok(x), Ok(())) => ensure_eq!(x, v, "number passed through"),
            (Err(x), Err(y)) => ensure_eq!(x, y, "refusal"),
            (x, y) => return Err(format!("{x:?}, where {y:?} is right")),
        }
        Ok(())
    }
    let edge = |s: &mut Src| -> i32 {
        match s.range(0, 5) {
            0 => s.range(0, 5) as i32 - 3,
            1 => s.i_range(-300, 300) as i32,
            2 => (1 << 30) - s.range(0, 2) as i32,
            3 => -(1 << 30) + s.range(0, 2) as i32,
            4 => *s.pick(&[i32::MIN, i32::MAX, i32::MIN + 1, i32::MAX - 1]),
            _ => s.int(i32::MIN as i128, i32::MAX as i128) as i32,
        }
    };
    let lo = edge(&mut cx.s);
    let hi = if cx.s.chance(1, 6) { edge(&mut cx.s) } else { lo.max(edge(&mut cx.s)) };
    let v: i128 = match cx.s.range(0, 4) {
        0 => lo as i128 + cx.s.range(0, 4) as i128 - 2,
        1 => hi as i128 + cx.s.range(0, 4) as i128 - 2,
        2 => hi as i128 - lo as i128 + cx.s.range(0, 4) as i128 - 2,
        3 => cx.s.range(0, 4) as i128 - 2,
        _ => cx.s.int(i64::MIN as i128, i64::MAX as i128),
    };
    let mut what = String::new();
    let mut s = Src::preset(vec![]);
    macro_rules! all {
        ($($t:ty),+) => { $(
            if let Ok(x) = <$t>::try_from(v) {
                one::<$t>(&mut s, &mut what, stringify!($t), x, v, lo, hi).map_err(|m| format!("{what}: {m}"))?;
            }
        )+ };
    }
    all!(u8, i8, u16, i16, u32, i32, i64);
    // numbers that the common type cannot hold
    let big = (v as u64) | 1 << 63;
    let got = BoundsError::<i64>::restrict(big, lo, hi);
    ensure!(matches!(got, Err(BoundsError::Failed(_))), "restrict({big}u64) in {lo}..={hi}: {got:?}");
    let near = lo > 0 || lo > hi || (v - lo as i128).abs() <= 2 || (v - hi as i128).abs() <= 2;
    if near {
        cx.nontrivial(&(v, lo, hi));
    }
    cx.note(|| format!("{v} in {lo}..={hi}"));
    // floats
    let fl = |s: &mut Src| -> f64 {
        match s.range(0, 4) {
            0 => *s.pick(&[0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE, f64::MAX]),
            1 => s.i_range(-8, 8) as f64 / 2.0,
            _ => f64::from_bits(s.draw(u64::MAX)),
        }
    };
    let (x, lo, hi) = (fl(&mut cx.s), fl(&mut cx.s), fl(&mut cx.s));
    let got = BoundsError::<f64>::restrict_float(x, lo, hi);
    if lo <= hi && lo <= x && x <= hi {
        ensure!(matches!(got, Ok(y) if y.to_bits() == x.to_bits()), "restrict_float({x:?}) in {lo:?}..={hi:?}: {got:?}");
    } else {
        let same = |a: f64, b: f64| a.to_bits() == b.to_bits();
        let right = match got {
            Ok(_) => false,
            Err(BoundsError::InvalidBounds { min, max }) => !(lo <= hi) && same(min, lo) && same(max, hi),
            Err(BoundsError::Underflow { min, val }) => lo <= hi && !(x >= lo) && same(min, lo) && same(val, x),
            Err(BoundsError::Overflow { max, val }) => lo <= hi && !(x <= hi) && same(max, hi) && same(val, x),
            Err(_) => false,
        };
        ensure!(right, "restrict_float({x:?}) in {lo:?}..={hi:?}: {got:?}");
    }
    Ok(())
}

/// C21: the opt-in check of declared ranges refuses every use of one which is
/// not between the OCaml bounds, and leaves the others alone.
pub fn declared<const LO: i32, const HI: i32>(cx: &mut Cx) -> R {
    let v = cx.s.int(i32::MIN as i128, i32::MAX as i128);
    let near = [LO as i128, HI as i128, 0, 1, -1, HI as i128 - LO as i128];
    let v = if cx.s.coin() { *cx.s.pick(&near) } else { v };
    let sound = -(1 << 30) <= LO && LO <= HI && HI < (1 << 30);
    let refused = cfg!(feature = "invalid_range_checking") && !sound;
    cx.nontrivial(&v);
    cx.note(|| format!("{v} in the range {LO}..={HI}"));
    macro_rules! all {
        ($($b:ty),+) => { $({
            type T<const L: i32, const H: i32> = RangedInt<$b, L, H>;
            let what = concat!(" with backing type ", stringify!($b));
            // (numbers the backing type has no room for can be refused by panic)
            let room = <$b>::try_from(if LO > 0 { v - LO as i128 } else { v }).is_ok();
            macro_rules! use_of {
                ($name:expr, $e:expr) => {
                    let got = guard(|| $e);
                    ensure!(!refused && !room || got.is_err() == refused, "{} of {v} in {LO}..={HI}{what}: {got:?}, {} to be refused", $name, if refused { "ought" } else { "ought not" });
                };
            }
            if let Ok(x) = i32::try_from(v) {
                use_of!("try_from_i32", T::<LO, HI>::try_from_i32(x));
                // (does without the check)
                if !refused {
                    use_of!("TryFrom<i32>", <T<LO, HI> as TryFrom<i32>>::try_from(x));
                }
            }
            if let Ok(x) = <$b>::try_from(v) {
                use_of!("try_from_underlying", T::<LO, HI>::try_from_underlying(x));
                use_of!("decoding", crate::nums::dec::<T<LO, HI>>(&x.to_be_bytes()));
                let inside = if LO > 0 { 0 <= v && v <= HI as i128 - LO as i128 } else { LO as i128 <= v && v <= HI as i128 };
                // (values that cannot be are refused in any case)
                if inside || !sound && refused {
                    let y = || unsafe { T::<LO, HI>::from_underlying_unchecked(x) };
                    use_of!("from_underlying", T::<LO, HI>::from_underlying(x));
                    use_of!("to_underlying", y().to_underlying());
                    use_of!("to_i32", y().to_i32());
                    use_of!("encoding", y().to_bytes());
                }
            }
        })+ };
    }
    all!(u8, i8, u16, i16, u32, i32);
    Ok(())
}

/// A range with its bounds the wrong way round contains nothing.
pub fn empty_int<const LO: i32, const HI: i32>(cx: &mut Cx) -> R {
    let v = cx.s.int(i32::MIN as i128, i32::MAX as i128);
    let v = if cx.s.coin() { *cx.s.pick(&[LO as i128, HI as i128, 0, 1, -1, LO as i128 - HI as i128]) } else { v };
    cx.nontrivial(&v);
    cx.note(|| format!("{v} in the empty range {LO}..={HI}"));
    macro_rules! all {
        ($($b:ty),+) => { $(
            type T<const L: i32, const H: i32> = RangedInt<$b, L, H>;
            if let Ok(x) = i32::try_from(v) {
                let got = T::<LO, HI>::try_from_i32(x);
                ensure!(got.is_err(), "try_from_i32({x}) of {}: {got:?}", stringify!($b));
                let got = <T<LO, HI> as TryFrom<i32>>::try_from(x);
                ensure!(got.is_err(), "TryFrom<i32>({x}) of {}: {got:?}", stringify!($b));
            }
            if let Ok(x) = <$b>::try_from(v) {
                let got = T::<LO, HI>::try_from_underlying(x);
                ensure!(got.is_err(), "try_from_underlying({x}) of {}: {got:?}", stringify!($b));
                let got = crate::nums::dec::<T<LO, HI>>(&x.to_be_bytes());
                ensure!(got.is_err(), "decoding {x} as {}: {got:?}", stringify!($b));
            }
        )+ };
    }
    {
        all!(u8);
    }
    {
        all!(i8);
    }
    {
        all!(u16);
    }
    {
        all!(i16);
    }
    {
        all!(u32);
    }
    {
        all!(i32);
    }
    Ok(())
}
pub fn empty_float<const LO: u64, const HI: u64>(cx: &mut Cx) -> R {
    let x = f64::from_bits(match cx.s.range(0, 4) {
        0 => LO,
        1 => HI,
        2 => ((f64::from_bits(LO) + f64::from_bits(HI)) / 2.0).to_bits(),
        3 => (*cx.s.pick(&[0.0f64, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN])).to_bits(),
        _ => cx.s.draw(u64::MAX),
    });
    cx.nontrivial(&x.to_bits());
    cx.note(|| format!("{x:?} in a range without any number"));
    type T<const L: u64, const H: u64> = RangedFloat<L, H>;
    let got = T::<LO, HI>::try_from_f64(x);
    ensure!(got.is_err(), "try_from_f64({x:?}): {got:?}");
    let got = T::<LO, HI>::try_from(x);
    ensure!(got.is_err(), "TryFrom<f64>({x:?}): {got:?}");
    let got = T::<LO, HI>::try_from(x as f32);
    ensure!(got.is_err(), "TryFrom<f32>({x:?}): {got:?}");
    let got = crate::nums::dec::<T<LO, HI>>(&x.to_be_bytes());
    ensure!(got.is_err(), "decoding {x:?}: {got:?}");
    Ok(())
}
/// Bounds of a float range travel through the type as bits.
pub fn float_bits(cx: &mut Cx) -> R {
    use tedium::float::{from_const_generic, to_const_generic};
    let b = if cx.s.coin() { cx.s.draw(u64::MAX) } else { (cx.s.i_range(-1000, 1000) as f64 / 8.0).to_bits() };
    cx.nontrivial(&b);
    ensure_eq!(from_const_generic(b).to_bits(), b, "bits of the float made from {b:#x}");
    ensure_eq!(to_const_generic(f64::from_bits(b)), b, "bits kept for {b:#x}");
    Ok(())
}
