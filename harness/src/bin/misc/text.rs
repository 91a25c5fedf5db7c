//! C16 (hexadecimal text) and C20 (fixed-width bytes and text).
use crate::nums::dec;
use std::borrow::{Borrow, Cow};
use std::convert::TryFrom;
use std::io::Write;
use std::rc::Rc;
use std::str::FromStr;
use std::sync::Arc;
use tedium::error::{HexConvError, WidthError};
use tedium::parse::buffer::VecBuffer;
use tedium::Target as _;
use tedium::*;
use vcore::engine::*;
use vcore::{ensure, ensure_eq};

// --------------------------------------------------------------------- hex

/// The only definition of hexadecimal text used here.
fn reference(t: &str) -> Option<Vec<u8>> {
    const D: &str = "0123456789abcdef";
    let cs: Vec<char> = t.chars().collect();
    if cs.len() % 2 != 0 {
        return None;
    }
    let digit = |c: char| if c.is_ascii() { D.find(c.to_ascii_lowercase()).map(|x| x as u8) } else { None };
    cs.chunks(2).map(|p| Some(digit(p[0])? * 16 + digit(p[1])?)).collect()
}
fn hex_text(s: &mut Src, b: &[u8]) -> String {
    let up = s.draw(2);
    b.iter()
        .flat_map(|x| {
            let hi = std::char::from_digit((x >> 4) as u32, 16).unwrap();
            let lo = std::char::from_digit((x & 15) as u32, 16).unwrap();
            [hi, lo]
        })
        .map(|c| match up {
            0 => c,
            1 => c.to_ascii_uppercase(),
            _ => {
                if s.coin() {
                    c.to_ascii_uppercase()
                } else {
                    c
                }
            }
        })
        .collect()
}
const ODD: &[&str] = &[
    "+", "-", " ", "\t", "\n", "\0", "_", "x", "0x", "g", "G", "@", "`", "/", ":", "z", ".", "é", "ß", "ª", "０", "Ａ", "ａ", "٣", "𝟘", "\u{200b}", "😀", "ﬀ", "İ", "K",
    "\u{7f}", "\u{80}", "\u{ff}", "\u{130}", "\u{141}", "\u{161}", "\u{10041}", "\u{0301}", "h", "f", "F", "0", "+f", "-0", " 1", "1 ",
];
fn any_text(s: &mut Src) -> (String, &'static str) {
    match s.weighted(&[3, 4, 2, 2, 2]) {
        0 => {
            let n = s.small_len();
            let b = s.bytes(n);
            (hex_text(s, &b), "digits")
        }
        1 => {
            // well-formed text with something slipped in or replaced
            let n = s.range(0, 6);
            let b = s.bytes(n);
            let mut t: Vec<char> = hex_text(s, &b).chars().collect();
            for _ in 0..s.range(1, 2) {
                let x: Vec<char> = s.pick(ODD).chars().collect();
                let i = s.range(0, t.len());
                if s.coin() && i < t.len() {
                    t.splice(i..i + 1, x);
                } else {
                    t.splice(i..i, x);
                }
            }
            (t.into_iter().collect(), "edited")
        }
        2 => {
            let n = s.range(0, 5);
            ((0..n).map(|_| *s.pick(ODD)).collect(), "odd symbols")
        }
        3 => {
            let n = s.range(0, 6);
            ((0..n).map(|_| s.draw(127) as u8 as char).collect(), "ascii")
        }
        _ => {
            let n = s.range(0, 6);
            ((0..n).map(|_| char::from_u32(s.draw(0x10ffff) as u32).unwrap_or('é')).collect(), "unicode")
        }
    }
}
/// Parsing through every route.
fn parses(t: &str) -> R {
    let want = reference(t);
    let judge = |how: &str, got: Result<Result<HexString, HexConvError>, String>| -> R {
        let got = got.map_err(|e| format!("{how}: panic for {t:?}: {e}"))?;
        // a refusal says why, and holds the text refused
        // (what counts as a character beyond ASCII is left open)
        let (odd, plain) = (t.len() % 2 == 1, t.is_ascii());
        match &got {
            Err(HexConvError::OddParity(x)) => ensure!((odd || !plain) && x == t, "{how} of {t:?} refuses it as odd: {x:?}"),
            Err(HexConvError::NonHex(x)) => ensure!(!(odd && plain) && x == t, "{how} of {t:?} refuses it as not hexadecimal: {x:?}"),
            Ok(_) => {}
        }
        ensure_eq!(got.ok().map(HexString::into_inner), want, "{how} of {t:?}");
        Ok(())
    };
    judge("from_hex(&str)", guard(|| HexString::from_hex(t)))?;
    judge("from_hex(String)", guard(|| HexString::from_hex(t.to_string().roomy())))?;
    judge("TryFrom<&str>", guard(|| HexString::try_from(t)))?;
    judge("TryFrom<&String>", guard(|| HexString::try_from(&t.to_string().roomy())))?;
    judge("TryFrom<Cow<str>>, owned", guard(|| HexString::try_from(Cow::<str>::Owned(t.to_string().roomy()))))?;
    judge("TryFrom<String>", guard(|| HexString::try_from(t.to_string().roomy())))?;
    judge("TryFrom<Box<str>>", guard(|| HexString::try_from(Box::<str>::from(t))))?;
    judge("TryFrom<Rc<str>>", guard(|| HexString::try_from(Rc::<str>::from(t))))?;
    judge("TryFrom<Arc<str>>", guard(|| HexString::try_from(Arc::<str>::from(t))))?;
    judge("TryFrom<Cow<str>>", guard(|| HexString::try_from(Cow::Borrowed(t))))?;
    judge("FromStr", guard(|| HexString::from_str(t)))?;
    // the macro refuses by panicking
    match guard(|| hex!(t).into_inner()) {
        Ok(x) => ensure_eq!(Some(x), want, "hex! of {t:?}"),
        Err(_) => ensure!(want.is_none(), "hex! panics for {t:?}"),
    }
    Ok(())
}
fn compares(b: &[u8], t: &str) -> R {
    let h = HexString::from_vec(b.to_vec().roomy());
    let want = reference(t).as_deref() == Some(b);
    let judge = |how: &str, got: Result<bool, String>| -> R {
        let got = got.map_err(|e| format!("{how}: panic comparing {b:02x?} with {t:?}: {e}"))?;
        ensure_eq!(got, want, "{how} comparing {b:02x?} with {t:?}");
        Ok(())
    };
    judge("eq_hex(&str)", guard(|| h.eq_hex(&t)))?;
    judge("eq_hex(str)", guard(|| h.eq_hex(t)))?;
    judge("eq_hex(String)", guard(|| h.eq_hex(&t.to_string())))?;
    judge("HexString == &str", guard(|| h == t))?;
    judge("&str == HexString", guard(|| t == h))?;
    judge("HexString == String", guard(|| h == t.to_string()))?;
    judge("String == HexString", guard(|| t.to_string() == h))?;
    judge("HexString == Cow", guard(|| h == Cow::Borrowed(t)))?;
    judge("Cow == HexString", guard(|| Cow::Borrowed(t) == h))?;
    judge("HexString != &str", guard(|| !(h != t)))?;
    Ok(())
}
fn shows(b: &[u8]) -> R {
    let mut want = String::new();
    for x in b {
        for d in [x >> 4, x & 15] {
            want.push(b"0123456789abcdef"[d as usize] as char);
        }
    }
    let h = HexString::from_vec(b.to_vec().roomy());
    ensure_eq!(h.to_hex(), want, "to_hex");
    ensure_eq!(format!("{h}"), want, "Display");
    ensure_eq!(h.to_string(), want, "to_string");
    ensure!(format!("{h:?}").contains(&want), "Debug {h:?} of {want}");
    ensure_eq!(StrictBuilder::from(b.to_vec().roomy()).into_hex(), want, "StrictBuilder::into_hex");
    ensure_eq!(MemoBuilder::from(b.to_vec().roomy()).into_hex(), want, "MemoBuilder::into_hex");
    parses(&want)?;
    parses(&want.to_uppercase())?;
    Ok(())
}
pub fn hex_texts(cx: &mut Cx) -> R {
    let (t, class) = any_text(&mut cx.s);
    cx.class(class);
    cx.note(|| format!("text {t:?}"));
    if reference(&t).is_none() || t.chars().any(|c| c.is_ascii_uppercase()) {
        cx.nontrivial(&t);
    }
    parses(&t)?;
    let b = match cx.s.weighted(&[2, 2, 1]) {
        0 => reference(&t).unwrap_or_default(),
        1 => {
            // what a lax reader would make of it
            let ds: Vec<u8> = t.chars().filter_map(|c| c.to_digit(16)).map(|d| d as u8).collect();
            ds.chunks(2).map(|c| c[0] * 16 + c.get(1).copied().unwrap_or(0)).collect()
        }
        _ => {
            let n = t.len() / 2;
            let mut b: Vec<u8> = t.bytes().collect();
            b.truncate(n);
            b
        }
    };
    compares(&b, &t)?;
    let other = any_text(&mut cx.s).0;
    compares(&b, &other)
}
pub fn plain_hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
/// The bytes through an iterator that knows its length exactly, at most, or not at all.
fn loosely<'a>(b: &'a [u8], how: u64, pad: usize) -> Box<dyn Iterator<Item = &'a u8> + 'a> {
    match how {
        0 => Box::new(b.iter()),
        // the upper bound is too large
        1 => Box::new(b.iter().chain([0u8; 200][..pad].iter().map(|_| &0u8).filter(|_| false)).filter(|_| true)),
        // the lower bound is too small, and there is no upper one
        2 => {
            let mut at = 0;
            Box::new(std::iter::from_fn(move || {
                at += 1;
                b.get(at - 1)
            }))
        }
        // both bounds are off
        3 => {
            let k = b.len() / 2;
            Box::new(b[..k].iter().chain(b[k..].iter().filter(|_| true)))
        }
        _ => Box::new(b.chunks(3).flatten()),
    }
}
/// Every way in from an array of `N` bytes.
fn from_array<const N: usize>(s: &mut Src) -> R {
    let b = s.bytes(N);
    let a = <[u8; N]>::try_from(&b[..]).unwrap();
    let ways = [
        ("From<[u8; N]>", HexString::from(a)),
        ("From<&[u8; N]>", HexString::from(&a)),
        ("From<Box<[u8; N]>>", HexString::from(Box::new(a))),
        ("From<Rc<[u8; N]>>", HexString::from(Rc::new(a))),
        ("From<Arc<[u8; N]>>", HexString::from(Arc::new(a))),
        ("From<Cow<[u8; N]>>", HexString::from(Cow::Borrowed(&a))),
        ("From<Cow<[u8; N]>>, owned", HexString::from(Cow::<[u8; N]>::Owned(a))),
    ];
    for (how, h) in ways {
        ensure_eq!(h.as_bytes(), &b[..], "{how}, N = {N}");
        ensure_eq!(h.to_hex(), plain_hex(&b), "{how}, N = {N}: shown");
    }
    Ok(())
}
pub fn hex_bytes(cx: &mut Cx) -> R {
    let n = cx.s.small_len();
    let b = cx.s.bytes(n);
    cx.note(|| format!("bytes {b:02x?}"));
    if n > 0 {
        cx.nontrivial(&b);
    }
    shows(&b)?;
    let t = hex_text(&mut cx.s, &b);
    compares(&b, &t)?;
    let mut c = b.clone();
    if n > 0 {
        let i = cx.s.range(0, n - 1);
        c[i] ^= 1 << cx.s.draw(7);
        compares(&c, &t)?;
        c.pop();
        compares(&c, &t)?;
        compares(&b[..n - 1], &t)?;
    }
    // every way in from bytes
    let ways: Vec<(&str, HexString)> = vec![
        ("From<Vec>", HexString::from(b.clone().roomy())),
        ("From<&[u8]>", HexString::from(&b[..])),
        ("From<Box<[u8]>>", HexString::from(b.clone().into_boxed_slice())),
        ("From<Rc<[u8]>>", HexString::from(Rc::<[u8]>::from(&b[..]))),
        ("From<Arc<[u8]>>", HexString::from(Arc::<[u8]>::from(&b[..]))),
        ("From<Cow<[u8]>>", HexString::from(Cow::Borrowed(&b[..]))),
        ("From<Cow<[u8]>>, owned", HexString::from(Cow::<[u8]>::Owned(b.clone().roomy()))),
        ("from_bytes", HexString::from_bytes(&b[..])),
        ("clone_from_bytes", HexString::clone_from_bytes(&b)),
        ("from_iter", b.iter().copied().collect()),
        ("from_iter of refs", b.iter().collect()),
        ("Write", {
            let mut h = HexString::new();
            h.write_all(&b).map_err(|e| e.to_string())?;
            h.flush().map_err(|e| e.to_string())?;
            h
        }),
    ];
    for (how, h) in ways {
        ensure_eq!(h.as_bytes(), &b[..], "{how}");
        ensure_eq!(h.len(), n, "{how}: len");
        ensure_eq!(h.is_empty(), n == 0, "{how}: is_empty");
        ensure_eq!(Vec::<u8>::from(h.clone()), b, "{how}: From<HexString> for Vec");
        ensure_eq!(h.iter().copied().collect::<Vec<_>>(), b, "{how}: iter");
        ensure_eq!(h.clone().into_iter().collect::<Vec<_>>(), b, "{how}: into_iter");
        ensure_eq!((&h).into_iter().copied().collect::<Vec<_>>(), b, "{how}: into_iter of a reference");
        ensure_eq!(h.as_vec(), &b, "{how}: as_vec");
        ensure_eq!(AsRef::<[u8]>::as_ref(&h), &b[..], "{how}: as_ref");
        ensure!(h == HexString::from_vec(b.clone().roomy()), "{how}: equality");
        ensure_eq!(hash_of(&h), hash_of(&HexString::from_vec(b.clone().roomy())), "{how}: hash");
    }
    match cx.s.draw(15) {
        0 => from_array::<0>(&mut cx.s)?,
        1 => from_array::<1>(&mut cx.s)?,
        2 => from_array::<2>(&mut cx.s)?,
        3 => from_array::<5>(&mut cx.s)?,
        4 => from_array::<8>(&mut cx.s)?,
        5 => from_array::<16>(&mut cx.s)?,
        6 => from_array::<20>(&mut cx.s)?,
        7 => from_array::<31>(&mut cx.s)?,
        8 => from_array::<32>(&mut cx.s)?,
        9 => from_array::<33>(&mut cx.s)?,
        10 => from_array::<64>(&mut cx.s)?,
        11 => from_array::<100>(&mut cx.s)?,
        12 => from_array::<256>(&mut cx.s)?,
        13 if cx.s.chance(1, 20) => from_array::<70000>(&mut cx.s)?,
        14 => from_array::<4097>(&mut cx.s)?,
        _ => from_array::<1000>(&mut cx.s)?,
    }
    if n > 0 {
        // writing through every mutable view
        let i = cx.s.range(0, n - 1);
        let x = cx.s.byte();
        let mut want = b.clone();
        want[i] = x;
        for how in 0..3 {
            let mut h = HexString::from(&b[..]);
            match how {
                0 => h.as_mut_bytes()[i] = x,
                1 => AsMut::<[u8]>::as_mut(&mut h)[i] = x,
                _ => h.as_mut_vec()[i] = x,
            }
            ensure_eq!(h.as_bytes(), &want[..], "byte {i} set through mutable view {how}");
            shows(h.as_bytes())?;
        }
    }
    for how in 0..5 {
        let pad = cx.s.range(0, 200);
        ensure_eq!(loosely(&b, how, pad).copied().collect::<HexString>().into_inner(), b, "collected from iterator {how}");
        ensure_eq!(loosely(&b, how, pad).collect::<HexString>().into_inner(), b, "collected from iterator {how} of refs");
    }
    // a history of appends
    let k = cx.s.range(0, n);
    let mut h = HexString::from(&b[..k]);
    let mut at = k;
    while at < n {
        let m = cx.s.range(1, (n - at).min(5));
        let part = &b[at..at + m];
        match cx.s.draw(7) {
            6 => {
                let how = cx.s.draw(4);
                h.extend(loosely(part, how, 7))
            }
            7 => {
                let how = cx.s.draw(4);
                h.extend(loosely(part, how, 100).copied())
            }
            0 => h.extend(part.iter()),
            1 => h.extend(part.to_vec().roomy()),
            2 => ensure_eq!(h.push_all(part), m, "push_all"),
            3 => {
                h.anticipate(m);
                for x in part {
                    ensure_eq!(h.push_one(*x), 1, "push_one");
                }
            }
            4 => h.write_all(part).map_err(|e| e.to_string())?,
            _ => h.as_mut_vec().extend_from_slice(part),
        }
        at += m;
        h.resolve();
    }
    ensure_eq!(h.as_bytes(), &b[..], "history of appends");
    let hexed: HexString = FixedBytes::<4>::from_array([1, 2, 3, 4]).encode();
    ensure_eq!(hexed.to_hex(), "01020304", "encoding into a HexString");
    Ok(())
}
pub fn hex_long(cx: &mut Cx) -> R {
    let n = if cx.s.chance(1, 80) { cx.s.giant_len() } else { cx.s.long_len() };
    let b = cx.s.stretch(n);
    cx.nontrivial(&b);
    cx.note(|| format!("{n} bytes"));
    shows(&b)?;
    let t = plain_hex(&b);
    compares(&b, &t)?;
    // one digit changed, one missing, one pair too many
    let i = cx.s.range(0, 2 * n - 1);
    let mut u = t.clone().into_bytes();
    u[i] = if u[i] == b'0' { b'1' } else { b'0' };
    compares(&b, std::str::from_utf8(&u).unwrap())?;
    compares(&b, &t[1..])?;
    compares(&b, &format!("{t}00"))?;
    compares(&b, &t[..2 * n - 2])?;
    let mut h = HexString::new();
    let k = cx.s.range(0, n);
    h.push_all(&b[..k]);
    h.push_all(&b[k..]);
    ensure!(h.as_bytes() == &b[..], "a long history of appends");
    for how in 0..5 {
        let mut g = HexString::from(&b[..k]);
        g.extend(loosely(&b[k..], how, 90).copied());
        ensure!(g.as_bytes() == &b[..], "extended by iterator {how}, {k} and {} bytes", n - k);
        let mut g = HexString::from(&b[..k]);
        g.extend(loosely(&b[k..], how, 90));
        ensure!(g.as_bytes() == &b[..], "extended by iterator {how} of refs, {k} and {} bytes", n - k);
        ensure!(loosely(&b, how, 90).copied().collect::<HexString>().as_bytes() == &b[..], "collected from iterator {how}, {n} bytes");
    }
    Ok(())
}
/// All texts of one and two characters from a set around the digits, plus all bytes.
pub const HEX_BLOCKS: u64 = 0x180;
pub fn hex_pairs(cx: &mut Cx, i: u64) -> R {
    let a = char::from_u32(i as u32).unwrap();
    cx.nontrivial(&i);
    cx.note(|| format!("texts that start with {a:?}"));
    parses(&a.to_string())?;
    for j in 0..HEX_BLOCKS {
        let b = char::from_u32(j as u32).unwrap();
        let t: String = [a, b].iter().collect();
        if i < 128 && j < 128 {
            parses(&t)?;
        } else {
            let got = guard(|| HexString::from_hex(&t).ok()).map_err(|e| format!("from_hex: panic for {t:?}: {e}"))?;
            ensure!(got.is_none(), "from_hex accepts {t:?}");
        }
        let k = reference(&t).map(|v| v[0]).unwrap_or((i * 16 + j) as u8);
        compares(&[k], &t)?;
    }
    if i < 256 {
        shows(&[i as u8])?;
        shows(&[0, i as u8])?;
    }
    Ok(())
}

// ------------------------------------------------------------------- fixed

fn fixed_source(s: &mut Src, w: usize) -> Vec<u8> {
    let n = match s.weighted(&[500, 400, 200, 40, 3]) {
        3 => w + 256,
        4 => w + *s.pick(&[1024usize, 4096, 65536]),
        0 => w,
        1 => (w + s.range(0, 4)).saturating_sub(2),
        _ => *s.pick(&[0usize, 1, 2, 3, 8, 31, 32, 33, 255, 256, 257, 300]),
    };
    match s.weighted(&[2, 2, 2, 1]) {
        0 => s.bytes(n),
        1 => {
            let mut t = String::new();
            while t.len() < n {
                let c = *s.pick(&['a', 'Z', '0', ' ', '\0', '\n', 'é', 'ß', '€', '日', '😀']);
                if t.len() + c.len_utf8() <= n {
                    t.push(c)
                } else {
                    t.push('x')
                }
            }
            t.into_bytes()
        }
        2 => {
            // text cut inside a character, or with one byte broken
            let mut b: Vec<u8> = "é日😀€ß".bytes().cycle().skip(s.range(0, 13)).take(n).collect();
            if n > 0 && s.coin() {
                let i = s.range(0, n - 1);
                b[i] = s.byte();
            }
            b
        }
        _ => vec![s.byte(); n],
    }
}
macro_rules! arr {
    ($b:expr) => {
        <[u8; W]>::try_from($b).unwrap()
    };
}
pub fn fixed_bytes<const W: usize>(cx: &mut Cx) -> R {
    let b = fixed_source(&mut cx.s, W);
    cx.note(|| format!("width {W}, source {b:02x?}"));
    let fits = b.len() == W;
    cx.class(if fits { "fits" } else { "wrong width" });
    if !fits || std::str::from_utf8(&b).is_err() {
        cx.nontrivial(&(W, &b));
    }
    let got = guard(|| FixedBytes::<W>::try_from_slice(&b)).map_err(|e| format!("try_from_slice panics: {e}"))?;
    let got2 = guard(|| <FixedBytes<W> as TryFrom<&[u8]>>::try_from(&b[..])).map_err(|e| format!("TryFrom panics: {e}"))?;
    ensure_eq!(got2.is_ok(), fits, "TryFrom<&[u8]>");
    if !fits {
        ensure_eq!(got.err(), Some(WidthError::WrongWidth { exact: W, actual: b.len() }), "try_from_slice");
        // decoding reads exactly the width
        if b.len() < W {
            ensure!(dec::<FixedBytes<W>>(&b).is_err(), "decoding from {} bytes", b.len());
        } else {
            let mut p = ByteParser::from_buffer(VecBuffer::from(b.clone().roomy()));
            let x = FixedBytes::<W>::parse(&mut p).map_err(|e| format!("decoding: {e:?}"))?;
            ensure_eq!(&x.bytes()[..], &b[..W], "decoded bytes");
            ensure_eq!(p.remainder(), b.len() - W, "bytes left by decoding");
        }
        return Ok(());
    }
    let x = match got {
        Ok(x) => x,
        Err(e) => return Err(format!("try_from_slice refuses {W} bytes: {e:?}")),
    };
    let a: [u8; W] = arr!(&b[..]);
    let ways: Vec<(&str, FixedBytes<W>)> = vec![
        ("try_from_slice", x),
        ("TryFrom<&[u8]>", got2.unwrap()),
        ("from_array", FixedBytes::from_array(a)),
        ("from_array_ref", FixedBytes::from_array_ref(&a)),
        ("From<[u8; W]>", FixedBytes::from(a)),
        ("From<&[u8; W]>", FixedBytes::from(&a)),
        ("decoding", dec::<FixedBytes<W>>(&b)?),
        ("bytes_mut", {
            let mut x = FixedBytes::from_array([0x5a; W]);
            x.bytes_mut().copy_from_slice(&b);
            x
        }),
    ];
    for (how, mut x) in ways {
        ensure_eq!(&x.bytes()[..], &b[..], "{how}: bytes");
        ensure_eq!(&x.bytes_mut()[..], &b[..], "{how}: bytes_mut");
        ensure_eq!(&x.to_array()[..], &b[..], "{how}: to_array");
        ensure_eq!(x.to_vec(), b, "{how}: to_vec");
        ensure_eq!(x.len(), W, "{how}: len");
        ensure_eq!(AsRef::<[u8]>::as_ref(&x), &b[..], "{how}: AsRef");
        ensure_eq!(&AsRef::<[u8; W]>::as_ref(&x)[..], &b[..], "{how}: AsRef array");
        ensure_eq!(Borrow::<[u8]>::borrow(&x), &b[..], "{how}: Borrow");
        ensure_eq!(&Borrow::<[u8; W]>::borrow(&x)[..], &b[..], "{how}: Borrow array");
        ensure_eq!(Vec::<u8>::from(x), b, "{how}: From for Vec");
        ensure_eq!(&<[u8; W]>::from(x)[..], &b[..], "{how}: From for array");
        let hex: String = b.iter().map(|v| format!("{v:02x}")).collect();
        ensure_eq!(format!("{x:x}"), hex, "{how}: LowerHex");
        encodes(&x, &b, how)?;
    }
    let other = arr!(&{
        let mut o = b.clone();
        if W > 0 && cx.s.coin() {
            let i = cx.s.range(0, W - 1);
            o[i] = cx.s.byte();
        }
        o
    }[..]);
    let (x, y) = (FixedBytes::from_array(a), FixedBytes::from_array(other));
    ensure_eq!(x == y, a == other, "equality");
    ensure_eq!(x.cmp(&y), a.cmp(&other), "order");
    if a == other {
        ensure_eq!(hash_of(&x), hash_of(&y), "hash");
    }
    Ok(())
}
/// The default of a fixed-width byte value is all zeros.
pub fn fixed_default(cx: &mut Cx) -> R {
    macro_rules! all { ($($w:literal),+) => { $(
        let x = FixedBytes::<$w>::default();
        ensure_eq!(<[u8; $w]>::from(x.clone()), [0u8; $w], "default of width {}", $w);
        encodes(&x, &[0u8; $w], "default")?;
    )+ } }
    cx.nontrivial(&0);
    cx.note(|| "defaults of widths 0, 1, 4, 20, 32".into());
    all!(0, 1, 4, 20, 32);
    Ok(())
}
fn encodes<T: Encode>(x: &T, b: &[u8], how: &str) -> R {
    ensure_eq!(x.encode::<StrictBuilder>().into_vec(), b.to_vec(), "{how}: encode");
    ensure_eq!(x.encode::<MemoBuilder>().into_vec(), b.to_vec(), "{how}: encode into a MemoBuilder");
    ensure_eq!(x.encode::<Vec<u8>>(), b.to_vec(), "{how}: encode into a Vec");
    ensure_eq!(x.to_bytes(), b.to_vec(), "{how}: to_bytes");
    let mut v = vec![0xee, 0xef];
    x.write_to_vec(&mut v);
    ensure_eq!(&v[..2], &[0xee, 0xef][..], "{how}: write_to_vec keeps what was there");
    ensure_eq!(&v[2..], b, "{how}: write_to_vec");
    let mut sb = StrictBuilder::word(7);
    ensure_eq!(x.write_to(&mut sb), b.len(), "{how}: write_to");
    ensure_eq!(&sb.into_vec()[1..], b, "{how}: write_to");
    Ok(())
}
pub fn fixed_string<const W: usize>(cx: &mut Cx) -> R {
    let b = fixed_source(&mut cx.s, W);
    cx.note(|| format!("width {W}, source {b:02x?}"));
    let fits = b.len() == W;
    let text = std::str::from_utf8(&b).ok();
    cx.class(match (fits, text) {
        (true, Some(_)) => "fits",
        (true, None) => "fits, not text",
        _ => "wrong width",
    });
    if !fits || text.map_or(true, |t| !t.is_ascii()) {
        cx.nontrivial(&(W, &b));
    }
    let mut tries: Vec<(&str, Result<Result<FixedString<W>, WidthError>, String>)> = vec![
        ("try_from_bytes", guard(|| FixedString::try_from_bytes(&b))),
        ("TryFrom<&[u8]>", guard(|| FixedString::try_from(&b[..]))),
    ];
    if let Some(t) = text {
        tries.push(("FromStr", guard(|| FixedString::from_str(t))));
        tries.push(("TryFrom<&str>", guard(|| FixedString::try_from(t))));
        tries.push(("TryFrom<String>", guard(|| FixedString::try_from(t.to_string().roomy()))));
    }
    let mut made = vec![];
    if fits {
        let a: [u8; W] = arr!(&b[..]);
        made.push(("from_array_unchecked", unsafe { FixedString::from_array_unchecked(&a) }));
    }
    for (how, r) in tries {
        let r = r.map_err(|e| format!("{how} panics: {e}"))?;
        match (fits, r) {
            (true, Ok(x)) => made.push((how, x)),
            (true, Err(e)) => return Err(format!("{how} refuses {W} bytes: {e:?}")),
            (false, Ok(_)) => return Err(format!("{how} accepts {} bytes", b.len())),
            (false, Err(e)) => ensure_eq!(e, WidthError::WrongWidth { exact: W, actual: b.len() }, "{how}"),
        }
    }
    if !fits {
        if b.len() < W {
            ensure!(dec::<FixedString<W>>(&b).is_err(), "decoding from {} bytes", b.len());
        } else {
            let mut p = ByteParser::from_buffer(VecBuffer::from(b.clone().roomy()));
            let x = FixedString::<W>::parse(&mut p).map_err(|e| format!("decoding: {e:?}"))?;
            ensure_eq!(x.to_bytes(), b[..W].to_vec(), "decoded bytes");
            ensure_eq!(p.remainder(), b.len() - W, "bytes left by decoding");
        }
        return Ok(());
    }
    let a: [u8; W] = arr!(&b[..]);
    made.push(("From<[u8; W]>", FixedString::from(a)));
    made.push(("From<&[u8; W]>", FixedString::from(&a)));
    made.push(("decoding", dec::<FixedString<W>>(&b)?));
    match (FixedString::try_from_array(&a), text) {
        (Ok(x), Some(_)) => made.push(("try_from_array", x)),
        (Err(_), None) => {}
        (Ok(_), None) => return Err("try_from_array accepts what is not text".into()),
        (Err(e), Some(_)) => return Err(format!("try_from_array refuses text: {e}")),
    }
    let lossy = String::from_utf8_lossy(&b);
    for (how, x) in made {
        ensure_eq!(x.len(), W, "{how}: len");
        ensure_eq!(x.is_valid_utf8(), text.is_some(), "{how}: is_valid_utf8");
        ensure_eq!(x.as_string_lossy(), lossy, "{how}: as_string_lossy");
        ensure_eq!(format!("{x}"), lossy.to_string(), "{how}: Display");
        ensure_eq!(x.to_string(), lossy.to_string(), "{how}: to_string");
        if let Some(t) = text {
            ensure_eq!(unsafe { x.as_str_unchecked() }, t, "{how}: as_str_unchecked");
        }
        encodes(&x, &b, how)?;
    }
    let mut o = b.clone();
    if W > 0 && cx.s.coin() {
        let i = cx.s.range(0, W - 1);
        o[i] = cx.s.byte();
    }
    let other: [u8; W] = arr!(&o[..]);
    let (x, y) = (FixedString::from(a), FixedString::from(other));
    ensure_eq!(x == y, a == other, "equality");
    ensure_eq!(x.cmp(&y), a.cmp(&other), "order");
    if a == other {
        ensure_eq!(hash_of(&x), hash_of(&y), "hash");
    }
    Ok(())
}

// ------------------------------------------------------------------ text as input

/// What text stands for as input.
fn as_input(t: &str) -> Option<Vec<u8>> {
    if cfg!(feature = "implicit_hexstring") {
        reference(t)
    } else {
        Some(t.as_bytes().to_vec())
    }
}
fn decodes<T: Decode + Encode>(t: &str, b: &Option<Vec<u8>>, n: &str) -> R {
    let want = match b {
        None => None,
        Some(b) => dec::<T>(b).ok().map(|x| x.to_bytes()),
    };
    let e = |x: T| x.to_bytes();
    macro_rules! ways {
        ($($how:literal => $x:expr),+) => { $(
            ensure_eq!(guard(|| T::try_decode::<_, ByteParser>($x).ok().map(e))?, want, "{n}: decoding {t:?} as {}", $how);
            ensure_eq!(guard(|| T::try_decode::<_, MemoParser>($x).ok().map(e))?, want, "{n}: decoding {t:?} as {} with MemoParser", $how);
            ensure_eq!(guard(|| e(T::decode($x))).ok(), want, "{n}: decode of {t:?} as {}", $how);
            ensure_eq!(guard(|| e(T::decode_memo($x))).ok(), want, "{n}: decode_memo of {t:?} as {}", $how);
        )+ };
    }
    ways!("&str" => t, "String" => t.to_string().roomy(), "&String" => &t.to_string(), "Cow" => Cow::Borrowed(t), "owned Cow" => Cow::<str>::Owned(t.to_string().roomy()));
    Ok(())
}
pub fn text_inputs(cx: &mut Cx) -> R {
    let (t, class) = any_text(&mut cx.s);
    cx.class(class);
    cx.note(|| format!("text {t:?}"));
    let b = as_input(&t);
    if !t.is_empty() {
        cx.nontrivial(&t);
    }
    decodes::<Bytes>(&t, &b, "Bytes")?;
    decodes::<String>(&t, &b, "String")?;
    decodes::<u16>(&t, &b, "u16")?;
    decodes::<FixedBytes<3>>(&t, &b, "FixedBytes<3>")?;
    decodes::<FixedString<4>>(&t, &b, "FixedString<4>")?;
    decodes::<Z>(&t, &b, "Z")?;
    decodes::<()>(&t, &b, "()")?;
    decodes::<bool>(&t, &b, "bool")?;
    decodes::<Nullable<u8>>(&t, &b, "Nullable<u8>")?;
    decodes::<Dynamic<u8, Bytes>>(&t, &b, "Dynamic<u8, Bytes>")?;
    // bytes and hexadecimal strings are what they are in every configuration
    if let Some(b) = &b {
        let h = HexString::from_vec(b.clone().roomy());
        ensure_eq!(guard(|| Bytes::try_decode::<_, ByteParser>(h).ok().map(|x| x.into_vec()))?, Some(b.clone()), "decoding a HexString");
        ensure_eq!(guard(|| Bytes::try_decode::<_, ByteParser>(&b[..]).ok().map(|x| x.into_vec()))?, Some(b.clone()), "decoding a slice");
        ensure_eq!(guard(|| Bytes::try_decode::<_, ByteParser>(b.clone().roomy()).ok().map(|x| x.into_vec()))?, Some(b.clone()), "decoding a vector");
    }
    Ok(())
}
