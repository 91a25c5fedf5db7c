//! C27: the parsers' buffers.
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::*;
use vcore::engine::*;
use vcore::{ensure, ensure_eq};

fn edge(s: &mut Src, n: usize) -> usize {
    s.amount(n)
}
pub fn vec_buffer(cx: &mut Cx) -> R {
    let n = cx.s.small_len();
    let d = cx.s.bytes(n);
    let (ix, len) = match cx.s.weighted(&[4, 3, 2]) {
        0 => (edge(&mut cx.s, n), edge(&mut cx.s, n)),
        1 => {
            let ix = cx.s.range(0, n);
            let d = cx.s.range(0, 2);
            (ix, (n - ix + d).saturating_sub(1))
        }
        // the sum wraps around to something small
        _ => {
            let ix = edge(&mut cx.s, n);
            let d = cx.s.range(0, n + 2);
            (ix, 0usize.wrapping_sub(ix).wrapping_add(d))
        }
    };
    cx.note(|| format!("{n} bytes, index {ix}, length {len}"));
    let inside = (ix as u128) + (len as u128) <= n as u128;
    if !inside {
        cx.nontrivial(&(n, ix, len));
    }
    cx.class(if inside { "inside" } else { "outside" });
    // room around the data, so that an overrun is not noticed by accident only
    let mut v = Vec::with_capacity(n + 64);
    v.extend_from_slice(&d);
    let b = match cx.s.draw(3) {
        0 => VecBuffer::from(v.roomy()),
        1 => VecBuffer::from(&d[..]),
        2 => VecBuffer::from(HexString::from_vec(d.clone().roomy())),
        _ => match n {
            0 => VecBuffer::from([]),
            1 => VecBuffer::from([d[0]]),
            2 => VecBuffer::from(&[d[0], d[1]]),
            _ => VecBuffer::from(d.clone().roomy()),
        },
    };
    ensure_eq!(b.len(), n, "len");
    ensure_eq!(b.is_empty(), n == 0, "is_empty");
    match guard(|| b.get_slice(ix, len).to_vec()) {
        Ok(x) => {
            ensure!(inside, "get_slice({ix}, {len}) of {n} bytes returns {} bytes", x.len());
            ensure_eq!(x, d[ix..ix + len].to_vec(), "get_slice({ix}, {len})");
        }
        Err(e) => ensure!(!inside, "get_slice({ix}, {len}) of {n} bytes panics: {e}"),
    }
    match guard(|| b.get_byte(ix)) {
        Ok(x) => {
            ensure!(ix < n, "get_byte({ix}) of {n} bytes returns {x}");
            ensure_eq!(x, d[ix], "get_byte({ix})");
        }
        Err(e) => ensure!(ix >= n, "get_byte({ix}) of {n} bytes panics: {e}"),
    }
    if n > 0 {
        // the last byte and the first one after it
        ensure_eq!(guard(|| b.get_byte(n - 1))?, d[n - 1], "last byte");
    }
    ensure!(guard(|| b.get_byte(n)).is_err(), "get_byte({n}) of {n} bytes is not refused");
    ensure!(b == VecBuffer::from(d.clone().roomy()), "equality");
    Ok(())
}
pub fn text_buffer(cx: &mut Cx) -> R {
    let n = cx.s.range(0, 12);
    let t = vcore::model::gen_text(&mut cx.s, n);
    cx.note(|| format!("{t:?}"));
    cx.nontrivial(&t);
    #[cfg(not(feature = "implicit_hexstring"))]
    for (how, b) in [
        ("&str", VecBuffer::from(&t[..])),
        ("String", VecBuffer::from(t.clone().roomy())),
        ("&String", VecBuffer::from(&t)),
        ("Cow", VecBuffer::from(std::borrow::Cow::Borrowed(&t[..]))),
    ] {
        ensure_eq!(b.len(), t.len(), "From<{how}>: len");
        ensure_eq!(b.get_slice(0, t.len()), t.as_bytes(), "From<{how}>");
    }
    #[cfg(feature = "implicit_hexstring")]
    {
        use std::convert::TryFrom;
        let k = cx.s.range(0, 8);
        let d = cx.s.bytes(k);
        let h = HexString::from_vec(d.clone().roomy()).to_hex();
        for (how, b) in [
            ("&str", VecBuffer::try_from(&h[..]).ok()),
            ("String", VecBuffer::try_from(h.clone().roomy()).ok()),
            ("Cow", VecBuffer::try_from(std::borrow::Cow::Borrowed(&h[..])).ok()),
        ] {
            let b = b.ok_or(format!("TryFrom<{how}> refuses {h}"))?;
            ensure_eq!(b.get_slice(0, k), &d[..], "TryFrom<{how}>");
            ensure_eq!(b.len(), k, "TryFrom<{how}>");
        }
        let want = HexString::from_hex(&t).ok().map(|h| h.into_inner());
        let got = VecBuffer::try_from(&t[..]).ok().map(|b| b.get_slice(0, b.len()).to_vec());
        ensure_eq!(got, want, "TryFrom<&str> of {t:?}");
    }
    Ok(())
}
fn array_buffer<const N: usize>(cx: &mut Cx) -> R {
    let d = cx.s.stretch(N);
    let a: Box<[u8; N]> = d.clone().into_boxed_slice().try_into().unwrap();
    cx.nontrivial(&(N, &d[..N.min(64)]));
    cx.note(|| format!("{N} bytes as an array"));
    for (how, b) in [("[u8; N]", VecBuffer::from(*a)), ("&[u8; N]", VecBuffer::from(&*a))] {
        ensure_eq!(b.len(), N, "From<{how}>: len, N = {N}");
        ensure!(guard(|| b.get_slice(0, N) == &d[..])?, "From<{how}>: contents, N = {N}");
        ensure!(guard(|| b.get_byte(N)).is_err(), "From<{how}>: more than {N} bytes");
    }
    // decoding what an array holds
    let want = Sequence::<u8>::try_decode::<_, ByteParser>(&d[..]).map(|x| x.to_bytes()).ok();
    for (how, got) in [
        ("[u8; N]", guard(|| Sequence::<u8>::try_decode::<_, ByteParser>(*a).map(|x| x.to_bytes()).ok())?),
        ("&[u8; N]", guard(|| Sequence::<u8>::try_decode::<_, ByteParser>(&*a).map(|x| x.to_bytes()).ok())?),
        ("[u8; N], memo", guard(|| Sequence::<u8>::try_decode::<_, MemoParser>(*a).map(|x| x.to_bytes()).ok())?),
        ("[u8; N], slices", guard(|| Sequence::<u8>::try_decode::<_, SliceParser>(&d[..]).map(|x| x.to_bytes()).ok())?),
    ] {
        ensure!(got == want, "decoding {N} bytes supplied as {how}");
    }
    Ok(())
}
/// Long inputs in every form.
pub fn big_inputs(cx: &mut Cx) -> R {
    match cx.s.draw(11) {
        0 => array_buffer::<3>(cx)?,
        1 => array_buffer::<33>(cx)?,
        2 => array_buffer::<255>(cx)?,
        3 => array_buffer::<256>(cx)?,
        4 => array_buffer::<257>(cx)?,
        5 => array_buffer::<1025>(cx)?,
        6 => array_buffer::<4096>(cx)?,
        7 => array_buffer::<4097>(cx)?,
        8 => array_buffer::<16390>(cx)?,
        9 => array_buffer::<65536>(cx)?,
        10 => array_buffer::<65537>(cx)?,
        _ => array_buffer::<140000>(cx)?,
    }
    #[cfg(not(feature = "implicit_hexstring"))]
    {
        let n = match cx.s.weighted(&[2, 3, 2]) {
            0 => cx.s.small_len(),
            1 => *cx.s.pick(&[256usize, 1024, 4096, 16384, 65536]) + cx.s.range(0, 2) - 1,
            _ => cx.s.range(400, 70000),
        };
        let t = vcore::model::gen_text(&mut cx.s, n);
        let want = t.as_bytes();
        for (how, b) in [
            ("&str", VecBuffer::from(&t[..])),
            ("String", VecBuffer::from(t.clone().roomy())),
            ("&String", VecBuffer::from(&t)),
            ("Cow", VecBuffer::from(std::borrow::Cow::Borrowed(&t[..]))),
            ("Vec", VecBuffer::from(want.to_vec().roomy())),
            ("&[u8]", VecBuffer::from(want)),
            ("HexString", VecBuffer::from(HexString::from_vec(want.to_vec().roomy()))),
        ] {
            ensure_eq!(b.len(), t.len(), "From<{how}>: len");
            ensure!(guard(|| b.get_slice(0, t.len()) == want)?, "From<{how}> of a text of {} bytes", t.len());
        }
        ensure!(guard(|| String::try_decode::<_, ByteParser>(&t[..]).ok())?.as_deref() == Some(&t[..]), "decoding a text of {} bytes as text", t.len());
    }
    Ok(())
}
pub fn slice_buffer(cx: &mut Cx) -> R {
    let n = cx.s.small_len();
    let d = cx.s.bytes(n + 2);
    // a slice in the middle of an allocation
    let d = &d[1..n + 1];
    let mut b = match cx.s.draw(1) {
        0 => SliceBuffer::new(d),
        _ => SliceBuffer::from(d),
    };
    let mut at = 0;
    let mut log = vec![];
    let mut refused = 0;
    let steps = cx.s.range(1, 6);
    let res = (|| -> R {
        for _ in 0..steps {
            let left = n - at;
            ensure_eq!(b.len(), left, "len");
            ensure_eq!(b.is_empty(), left == 0, "is_empty");
            ensure_eq!(b.as_slice(), &d[at..], "as_slice");
            ensure_eq!(b.into_slice(), &d[at..], "into_slice");
            let k = edge(&mut cx.s, left);
            match cx.s.draw(3) {
                0 => {
                    log.push(format!("split {k}"));
                    match guard(|| b.split(k)) {
                        Ok((x, y)) => {
                            ensure!(k <= left, "split({k}) of {left} bytes is not refused");
                            ensure_eq!(x.as_slice(), &d[at..at + k], "first part of split({k})");
                            ensure_eq!(y.as_slice(), &d[at + k..], "second part of split({k})");
                            if cx.s.chance(2, 3) {
                                b = y;
                                at += k;
                            }
                        }
                        Err(e) => {
                            ensure!(k > left, "split({k}) of {left} bytes panics: {e}");
                            refused += 1;
                        }
                    }
                }
                1 => {
                    log.push(format!("take {k}"));
                    match guard(|| b.take(k)) {
                        Ok((x, y)) => {
                            ensure!(k <= left, "take({k}) of {left} bytes is not refused");
                            ensure_eq!(x, &d[at..at + k], "part taken by take({k})");
                            ensure_eq!(y.as_slice(), &d[at + k..], "rest of take({k})");
                            b = y;
                            at += k;
                        }
                        Err(e) => {
                            ensure!(k > left, "take({k}) of {left} bytes panics: {e}");
                            refused += 1;
                        }
                    }
                }
                2 => {
                    log.push("cut_first".into());
                    match guard(|| b.cut_first()).map_err(|e| format!("cut_first of {left} bytes panics: {e}"))? {
                        Some((x, y)) => {
                            ensure!(left > 0, "cut_first of nothing returns {x}");
                            ensure_eq!(x, d[at], "cut_first");
                            ensure_eq!(y.as_slice(), &d[at + 1..], "rest of cut_first");
                            b = y;
                            at += 1;
                        }
                        None => ensure!(left == 0, "cut_first of {left} bytes returns nothing"),
                    }
                }
                _ => {
                    log.push("copy".into());
                    let c = b;
                    ensure!(c == b, "a copy differs");
                }
            }
        }
        Ok(())
    })();
    cx.note(|| format!("{n} bytes: {}", log.join("; ")));
    if refused > 0 || at == n {
        cx.nontrivial(&(n, log.join(";")));
    }
    cx.class(if refused > 0 { "with refusals" } else { "without refusals" });
    let s = SliceBuffer::from_static(b"static");
    ensure_eq!(s.as_slice(), b"static", "from_static");
    res
}
/// Every index and length for short buffers.
pub fn small(cx: &mut Cx, i: u64) -> R {
    let n = i as usize;
    cx.nontrivial(&i);
    cx.note(|| format!("{n} bytes"));
    let d: Vec<u8> = (0..n).map(|x| x as u8 ^ 0x55).collect();
    let b = VecBuffer::from(d.clone().roomy());
    let s = SliceBuffer::new(&d);
    let mut edges: Vec<usize> = (0..n + 4).collect();
    edges.extend((0..n + 4).map(|k| usize::MAX - k));
    edges.extend((0..n + 4).map(|k| (isize::MAX as usize + 2) - k));
    for &x in &edges {
        ensure_eq!(guard(|| b.get_byte(x)).ok(), d.get(x).copied(), "get_byte({x})");
        ensure_eq!(guard(|| s.split(x)).ok().map(|(a, b)| (a.as_slice(), b.as_slice())), (x <= n).then(|| d.split_at(x)), "split({x})");
        ensure_eq!(guard(|| s.take(x)).ok().map(|(a, b)| (a, b.as_slice())), (x <= n).then(|| d.split_at(x)), "take({x})");
        for &y in &edges {
            let want = x.checked_add(y).and_then(|e| d.get(x..e));
            ensure_eq!(guard(|| b.get_slice(x, y)).ok(), want, "get_slice({x}, {y}) of {n} bytes");
        }
    }
    Ok(())
}
