use crate::alloc;
use std::sync::OnceLock;
use tedium::parse::cleanup::LeftoverState;
use tedium::parse::error::{ExternalError, ParseError, TokenError, WindowError};
use tedium::*;
use vcore::engine::Target;
use vcore::engine::*;
use tedium::Target as _;
use vcore::model::*;
use vcore::wire::*;
use vcore::{ensure, ensure_eq};

pub fn reg() -> &'static [Entry] {
    static REG: OnceLock<Vec<Entry>> = OnceLock::new();
    REG.get_or_init(crate::types::registry)
}

pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(200).map(|x| format!("{x:02x}")).collect();
    if b.len() > 200 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}
pub fn short(v: &Val) -> String {
    let s = format!("{v:?}");
    s.chars().take(300).collect()
}
fn per_type(quick: u64, thorough: u64, f: impl Fn(&'static Entry, &mut Cx) -> R + Copy + Send + Sync + 'static) -> Vec<Target> {
    reg().iter().map(|e| target(e.name, quick, thorough, move |cx| f(e, cx))).collect()
}
fn has_nan(s: &Sch, v: &Val) -> bool {
    // only unbounded floats can hold not-a-number
    let _ = s;
    match v {
        Val::F(b) => f64::from_bits(*b).is_nan(),
        Val::Opt(Some(x)) => has_nan(s, x),
        Val::List(x) | Val::Var(_, x) => x.iter().any(|y| has_nan(s, y)),
        _ => false,
    }
}
fn classify(cx: &mut Cx, v: &Val) {
    let n = v.size();
    cx.class(match n {
        0..=1 => "value: atomic",
        2..=8 => "value: small",
        9..=64 => "value: medium",
        _ => "value: large",
    });
}

// ---------------------------------------------------------------- C01

fn c01(e: &'static Entry, cx: &mut Cx) -> R {
    let room = room(&mut cx.s, 300);
    let v = gen_val(&mut cx.s, &e.sch, room);
    c01_value(e, v, cx)
}
fn c01_value(e: &'static Entry, v: Val, cx: &mut Cx) -> R {
    cx.note(|| format!("{} value {}", e.name, short(&v)));
    if !recoverable(&e.sch, &v) {
        cx.class("skipped: ambiguous on the wire");
        return Ok(());
    }
    classify(cx, &v);
    cx.nontrivial(&(e.name, &v));
    let enc = e.ops.plain(&v);
    // a suffix-reserving format needs its reserved bytes to follow
    let sfx = cx.s.bytes(reserve_of(&e.sch, &v));
    let mut input = enc.clone();
    input.extend(&sfx);
    for k in KINDS {
        let o = e.ops.decode(k, &input, &Around::default());
        match o.res {
            Err(x) => return Err(format!("{k:?}: decoding its own encoding {} failed: {x:?}", hex(&input))),
            Ok(w) => ensure!(w == v, "{k:?}: decoded {} instead of {} from {}", short(&w), short(&v), hex(&input)),
        }
        ensure!(o.rest == sfx, "{k:?}: {} bytes left unread instead of {} after decoding {}", o.rest.len(), sfx.len(), hex(&input));
    }
    for (w, b) in e.ops.encodings(&v) {
        ensure!(b == enc, "{w} gives {} but to_bytes gives {}", hex(&b), hex(&enc));
    }
    if sfx.is_empty() {
        for k in KINDS {
            match e.ops.try_decode(k, &enc) {
                Ok(w) => ensure!(w == v, "try_decode {k:?}: {} instead of {}", short(&w), short(&v)),
                Err(x) => return Err(format!("try_decode {k:?} of {}: {x:?}", hex(&enc))),
            }
        }
        for memo in [false, true] {
            match e.ops.decode_or_panic(memo, &enc) {
                Ok(w) => ensure!(w == v, "decode (memo {memo}): {} instead of {}", short(&w), short(&v)),
                Err(x) => return Err(format!("decode (memo {memo}) of {} panicked: {x}", hex(&enc))),
            }
        }
        if !has_nan(&e.sch, &v) {
            ensure_eq!(e.ops.own_eq_roundtrip(&v), Ok(true), "decode(encode(v)) == v");
        }
    }
    Ok(())
}

/// A stream of several values of different types, written into one target and
/// read back in one history.
fn c01_stream(cx: &mut Cx) -> R {
    let picks: Vec<&'static Entry> = {
        let n = cx.s.range(2, 5);
        let all: Vec<&'static Entry> = reg().iter().filter(|e| e.sch.self_delimiting()).collect();
        (0..n).map(|_| *cx.s.pick(&all)).collect()
    };
    let mut t = AnyTarget::new(cx.s.range(0, 3));
    let mut vals = vec![];
    let mut ends = vec![];
    let mut total = 0;
    for e in &picks {
        let v = gen_val(&mut cx.s, &e.sch, 60);
        total += e.ops.write_any(&v, &mut t);
        ends.push(total);
        vals.push(v);
    }
    if !picks.iter().zip(&vals).all(|(e, v)| recoverable(&e.sch, v)) {
        return Ok(());
    }
    let bytes = t.contents().unwrap();
    cx.nontrivial(&(&bytes, picks.len()));
    cx.note(|| format!("{} -> {}", picks.iter().map(|e| e.name).collect::<Vec<_>>().join(" ; "), hex(&bytes)));
    ensure_eq!(bytes.len(), total, "bytes in the target against the sum of the returned counts");
    for k in KINDS {
        let mut p = AnyParser::new(k, &bytes, 1 << 20);
        for (i, (e, v)) in picks.iter().zip(&vals).enumerate() {
            match e.ops.parse_any(&mut p) {
                Ok(w) => ensure!(w == *v, "{k:?}: item {i} ({}) decoded as {} instead of {}", e.name, short(&w), short(v)),
                Err(x) => return Err(format!("{k:?}: item {i} ({}): {x:?}", e.name)),
            }
            ensure_eq!(p.remainder(), total - ends[i], "{k:?}: bytes left after item {i} ({})", e.name);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C02

fn c02(e: &'static Entry, cx: &mut Cx) -> R {
    let room = room(&mut cx.s, 300);
    let v = gen_val(&mut cx.s, &e.sch, room);
    cx.note(|| format!("{} value {}", e.name, short(&v)));
    classify(cx, &v);
    cx.nontrivial(&(e.name, &v));
    let want = encode(&e.sch, &v);
    for (w, b) in e.ops.encodings(&v) {
        ensure!(b == want, "{w}: {} but the format prescribes {}", hex(&b), hex(&want));
    }
    // no influence of earlier encodings
    let u = gen_val(&mut cx.s, &e.sch, 40);
    let _ = e.ops.plain(&u);
    let again = e.ops.plain(&v);
    ensure!(again == want, "second encoding {} but the format prescribes {}", hex(&again), hex(&want));
    Ok(())
}
fn exhaustive_ints() -> Vec<Target> {
    let mut v = vec![];
    for e in reg() {
        let (lo, hi) = match &e.sch {
            Sch::Int(1, s) => if *s { (-128i128, 127i128) } else { (0, 255) },
            Sch::Int(2, s) => if *s { (-32768, 32767) } else { (0, 65535) },
            Sch::RInt(_, lo, hi) if hi - lo <= 70000 => (*lo as i128, *hi as i128),
            _ => continue,
        };
        v.push(enumerated(format!("{} exhaustive", e.name), (hi - lo + 1) as u64, move |cx, i| {
            let x = Val::Int(lo + i as i128);
            let want = encode(&e.sch, &x);
            cx.nontrivial(&i);
            cx.note(|| format!("{} = {}", e.name, lo + i as i128));
            let b = e.ops.plain(&x);
            ensure!(b == want, "{:?} encodes to {} instead of {}", x, hex(&b), hex(&want));
            let o = e.ops.decode(Kind::Byte, &b, &Around::default());
            match o.res {
                Ok(y) => ensure!(x == y, "{:?} decodes back as {:?}", x, y),
                Err(er) => return Err(format!("{x:?} does not decode back: {er:?}")),
            }
            Ok(())
        }));
    }
    v
}

// ---------------------------------------------------------------- C03

fn c03(e: &'static Entry, cx: &mut Cx) -> R {
    let room = room(&mut cx.s, 300);
    let v = gen_val(&mut cx.s, &e.sch, room);
    cx.note(|| format!("{} value {}", e.name, short(&v)));
    classify(cx, &v);
    cx.nontrivial(&(e.name, &v));
    let n = e.ops.plain(&v).len();
    for (w, l) in e.ops.lengths(&v) {
        ensure!(l == n, "{w} says {l} but the encoding has {n} bytes ({})", short(&v));
    }
    if let Some(k) = e.ops.known() {
        ensure!(k == n, "KNOWN says {k} but the encoding has {n} bytes ({})", short(&v));
    }
    if let Some(k) = e.ops.fixed() {
        ensure!(k == n, "LEN says {k} but the encoding has {n} bytes ({})", short(&v));
    }
    for k in 0..TARGETS.len() {
        let mut t = AnyTarget::new(k);
        let r = e.ops.write_any(&v, &mut t);
        ensure!(r == n, "writing to {} returns {r} but the encoding has {n} bytes", TARGETS[k]);
    }
    Ok(())
}
/// Sequences may be built by hand to any permitted length; their lengths count too.
fn c03_undersaturated(cx: &mut Cx) -> R {
    let n = cx.s.range(0, 4);
    let q: FixSeq<u16, 4> = FixSeq::try_from((0..n as u16).collect::<Vec<_>>()).map_err(|e| format!("building within capacity refused: {e:?}"))?;
    cx.nontrivial(&n);
    cx.note(|| format!("FixSeq<u16, 4> holding {n} elements"));
    // such a value either has no encoding (refused) or every length agrees with it
    match guard(|| q.to_bytes()) {
        Err(_) => Ok(()),
        Ok(b) => {
            let est = q.estimate();
            ensure!(est == b.len(), "FixSeq<u16, 4> holding {n} elements encodes to {} bytes but declares {est}", b.len());
            let k = <FixSeq<u16, 4> as Estimable>::KNOWN.unwrap_or(b.len());
            ensure!(k == b.len(), "KNOWN {k} but {} bytes", b.len());
            Ok(())
        }
    }
}

/// Bare collections have no encoding of their own, but declare the length their elements have together.
fn c03_collections(cx: &mut Cx) -> R {
    use tedium::conv::len::{Estimable as Es, FixedLength as Fx, ScalarLength as Sc};
    fn one<T: Fx + Encode + Clone + Es>(name: &str, v: Vec<T>) -> R {
        let per: Vec<usize> = v.iter().map(|x| x.to_bytes().len()).collect();
        let sum: usize = per.iter().sum();
        let n = v.len();
        let q: Sequence<T> = v.iter().cloned().collect();
        ensure_eq!(q.to_bytes().len(), sum, "Sequence<{name}> of {n}: encoded length");
        ensure_eq!(Es::estimate(&q), sum, "Sequence<{name}> of {n}: estimate");
        ensure_eq!(Es::estimate(&v), sum, "Vec<{name}> of {n}: estimate");
        ensure_eq!(Es::unknown(&v), sum, "Vec<{name}> of {n}: unknown");
        ensure_eq!(Es::estimate(&&v[..]), sum, "&[{name}] of {n}: estimate");
        ensure_eq!(Sc::n_elems(&v), n, "Vec<{name}> of {n}: number of elements");
        ensure_eq!(Sc::n_elems(&v[..]), n, "[{name}] of {n}: number of elements");
        ensure_eq!(Sc::n_elems(&&v[..]), n, "&[{name}] of {n}: number of elements");
        for (i, x) in v.iter().enumerate() {
            ensure_eq!(<T as Fx>::LEN, per[i], "{name}: LEN");
            ensure_eq!(<Vec<T> as Sc>::PER_ELEM, per[i], "Vec<{name}>: length per element");
            ensure_eq!(<[T] as Sc>::PER_ELEM, per[i], "[{name}]: length per element");
            ensure_eq!(Sc::n_elems(x) * <T as Sc>::PER_ELEM, per[i], "{name}: elements times length per element");
        }
        if let Some(k) = <Vec<T> as Es>::KNOWN.or(<&[T] as Es>::KNOWN) {
            return Err(format!("collections of {name} declare the constant length {k}"));
        }
        macro_rules! arrays { ($($k:literal),+) => { $(
            if n >= $k {
                let a: [T; $k] = match v[..$k].to_vec().try_into() { Ok(a) => a, Err(_) => unreachable!() };
                let sum: usize = per[..$k].iter().sum();
                ensure_eq!(<[T; $k] as Fx>::LEN, sum, "[{name}; {}]: LEN", $k);
                ensure_eq!(<[T; $k] as Es>::KNOWN, Some(sum), "[{name}; {}]: KNOWN", $k);
                ensure_eq!(Es::estimate(&a), sum, "[{name}; {}]: estimate", $k);
                ensure_eq!(Es::unknown(&a), sum, "[{name}; {}]: unknown", $k);
            }
        )+ } }
        arrays!(0, 1, 2, 5, 64);
        Ok(())
    }
    let n = cx.s.small_len();
    let b = cx.s.bytes(n * 8);
    let at = |i: usize| u64::from_be_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
    macro_rules! each { ($($t:ty: $f:expr);+ $(;)?) => { $( one::<$t>(stringify!($t), (0..n).map(|i| { let f: fn(u64) -> $t = $f; f(at(i)) }).collect())?; )+ } }
    each! {
        (): |_| ();
        u8: |x| x as u8;
        i8: |x| x as i8;
        bool: |x| x & 1 == 1;
        u16: |x| x as u16;
        i16: |x| x as i16;
        u32: |x| x as u32;
        i32: |x| x as i32;
        u64: |x| x;
        i64: |x| x as i64;
        f64: f64::from_bits;
        u30: |x| u30::from_i32((x & 0x3fff_ffff) as i32);
        i31: |x| i31::from_i32((x & 0x3fff_ffff) as i32);
        RangedInt<u8, 3, 200>: |x| RangedInt::from_i32(3 + (x % 198) as i32);
        RangedInt<i16, -300, 300>: |x| RangedInt::from_i32((x % 601) as i32 - 300);
        FixedBytes<0>: |_| FixedBytes::from_array([]);
        FixedBytes<3>: |x| FixedBytes::from_array([x as u8, (x >> 8) as u8, (x >> 16) as u8]);
        FixedString<2>: |x| FixedString::try_from(format!("{:02x}", x as u8).as_str()).unwrap();
    }
    let room = cx.s.range(0, 60);
    let t = match gen_val(&mut cx.s, &Sch::Str, room) {
        Val::Bytes(b) => String::from_utf8_lossy(&b).into_owned(),
        v => return Err(format!("harness: {v:?} for a text")),
    };
    let want = t.to_bytes().len();
    // (room to spare must not count)
    let mut t = t;
    t.reserve(room);
    let roomy = || {
        let mut o = t.clone();
        o.reserve(room);
        o
    };
    for (w, l) in [
        ("&str", Es::estimate(&&t[..])),
        ("String", Es::estimate(&t)),
        ("borrowed Cow<str>", Es::estimate(&std::borrow::Cow::Borrowed(&t[..]))),
        ("owned Cow<str>", Es::estimate(&std::borrow::Cow::<str>::Owned(roomy()))),
        ("n_elems of str", Sc::n_elems(&t[..])),
    ] {
        ensure_eq!(l, want, "{w}: {t:?}");
    }
    // lengths of wide types are declared without a value at hand
    macro_rules! wide { ($($ty:ty = $n:expr),+ $(,)?) => { $(
        ensure_eq!(<$ty as Es>::KNOWN, Some($n), "{}: KNOWN", stringify!($ty));
    )+ } }
    wide!(
        FixSeq<u8, 300> = 300, FixSeq<u16, 40_000> = 80_000, FixSeq<u8, 70_000> = 70_000, FixSeq<FixSeq<u64, 300>, 300> = 720_000,
        FixSeq<FixedBytes<65_537>, 3> = 196_611, FixedBytes<70_000> = 70_000, FixedString<65_536> = 65_536, Padded<u8, 70_000> = 70_001,
        [u16; 70_000] = 140_000, VPadded<FixedBytes<70_000>, 3> = 70_000, AutoBox<FixSeq<u8, 65_536>> = 65_536, Dynamic<u30, FixSeq<u8, 65_536>> = 65_540,
    );
    cx.nontrivial(&(&b, &t));
    cx.note(|| format!("{n} elements from {}, text {t:?}", hex(&b)));
    Ok(())
}

// ---------------------------------------------------------------- C04

fn c04(e: &'static Entry, cx: &mut Cx) -> R {
    let room = room(&mut cx.s, 200);
    let v = gen_val(&mut cx.s, &e.sch, room);
    let n = cx.s.small_len();
    let pre = cx.s.bytes(n);
    cx.note(|| format!("{} value {} onto {} bytes", e.name, short(&v), pre.len()));
    cx.nontrivial(&(e.name, &v, &pre));
    let body = e.ops.plain(&v);
    let mut want = pre.clone();
    want.extend(&body);
    for (w, b, n) in e.ops.append_to_all(&pre, &v) {
        ensure!(b == want, "{w}: holds {} instead of {}", hex(&b), hex(&want));
        ensure!(n == body.len(), "{w}: returned {n} instead of {}", body.len());
    }
    Ok(())
}
/// Runs long enough to overflow any narrow counter or buffer.
fn c04_long(cx: &mut Cx) -> R {
    let n = cx.s.range(0, 20);
    let pre = cx.s.bytes(n);
    let n = cx.s.long_len();
    let b = cx.s.stretch(n);
    cx.nontrivial(&(&pre, &b));
    cx.note(|| format!("{} bytes, then {n} at once", pre.len()));
    let mut want = pre.clone();
    want.extend(&b);
    for k in 0..TARGETS.len() {
        let mut t = AnyTarget::new(k);
        ensure_eq!(t.push_all(&pre), pre.len(), "{}: push_all", TARGETS[k]);
        ensure_eq!(t.push_all(&b), n, "{}: push_all of {n} bytes", TARGETS[k]);
        t.resolve();
        if let Some(c) = t.contents() {
            ensure!(c == want, "{}: {} bytes instead of {}", TARGETS[k], c.len(), want.len());
        }
        let mut t = AnyTarget::new(k);
        let v = Bytes::from(b.clone());
        ensure_eq!(v.write_to(&mut t), n, "{}: writing Bytes", TARGETS[k]);
        ensure_eq!(Dynamic::<u30, Bytes>::from(v).write_to(&mut t), n + 4, "{}: writing prefixed Bytes", TARGETS[k]);
        if let Some(c) = t.contents() {
            ensure!(c.len() == 2 * n + 4 && c[..n] == b[..] && c[n + 4..] == b[..] && c[n..n + 4] == (n as u32).to_be_bytes(), "{}: long Bytes written wrongly", TARGETS[k]);
        }
    }
    Ok(())
}
fn c04_history(cx: &mut Cx) -> R {
    let n = cx.s.range(1, 12);
    let mut want: Vec<u8> = vec![];
    let mut counts = 0usize;
    let mut ts: Vec<AnyTarget> = (0..TARGETS.len()).map(AnyTarget::new).collect();
    let mut sink_total = 0usize;
    let mut log = vec![];
    for _ in 0..n {
        let op = cx.s.weighted(&[3, 3, 3, 2, 2, 1, 4]);
        macro_rules! all { ($t:ident => $e:expr, $len:expr, $what:expr) => {{
            for (i, $t) in ts.iter_mut().enumerate() {
                let r: usize = $e;
                if i == 4 { sink_total += r; }
                ensure!(r == $len, "{}: {} returned {} instead of {}", TARGETS[i], $what, r, $len);
            }
        }}; }
        match op {
            0 => {
                let b = cx.s.byte();
                all!(t => t.push_one(b), 1, "push_one");
                want.push(b);
                log.push("one");
            }
            1 => {
                let l = cx.s.small_len();
                let b = cx.s.bytes(l);
                all!(t => t.push_all(&b), l, "push_all");
                want.extend(&b);
                log.push("all");
            }
            2 => {
                macro_rules! many { ($k:literal) => {{ let a: [u8; $k] = cx.s.bytes($k).try_into().unwrap(); all!(t => t.push_many(a), $k, "push_many"); want.extend(a); }}; }
                match cx.s.range(0, 12) { 0..=2 => many!(0), 3 | 4 => many!(1), 5 | 6 => many!(2), 7 => many!(4), 8 | 9 => many!(8), 10 | 11 => many!(33), _ if cx.s.chance(1, 8) => many!(5000), _ if cx.s.chance(1, 30) => many!(66000), _ => many!(300) }
                log.push("many");
            }
            3 => {
                for t in ts.iter_mut() { t.resolve(); }
                log.push("resolve");
            }
            4 => {
                all!(t => t.resolve_zero(), 0, "resolve_zero");
                log.push("resolve0");
            }
            5 => {
                let a = cx.s.range(0, 5000);
                for t in ts.iter_mut() { t.anticipate(a); }
                log.push("anticipate");
            }
            _ => {
                let e = cx.s.pick(reg());
                let v = gen_val(&mut cx.s, &e.sch, 40);
                let b = e.ops.plain(&v);
                all!(t => e.ops.write_any(&v, t), b.len(), e.name);
                want.extend(&b);
                log.push(e.name);
            }
        }
        counts += 1;
        for (i, t) in ts.iter().enumerate() {
            if let Some(c) = t.contents() {
                ensure!(c == want, "{} after {:?}: {} instead of {}", TARGETS[i], log, hex(&c), hex(&want));
            }
        }
    }
    ensure_eq!(sink_total, want.len(), "byte counter total");
    cx.nontrivial(&(&want, counts));
    cx.note(|| log.join(" "));
    Ok(())
}

// ---------------------------------------------------------------- C05

pub fn conforms(e: &Entry, k: Kind, buf: &[u8]) -> R {
    let want = decode(&e.sch, buf);
    let o = e.ops.decode(k, buf, &Around::default());
    match (want, o.res) {
        (Ok((v, n, _)), Ok(w)) => {
            ensure!(v == w, "{k:?}: {} decodes as {} but the format says {}", hex(buf), short(&w), short(&v));
            ensure!(o.rest == buf[n..], "{k:?}: decoding {} leaves {} unread but the format says {}", hex(buf), hex(&o.rest), hex(&buf[n..]));
            Ok(())
        }
        (Err(_), Err(_)) => Ok(()),
        (Ok((v, ..)), Err(x)) => Err(format!("{k:?}: valid input {} ({}) rejected: {x:?}", hex(buf), short(&v))),
        (Err(r), Ok(w)) => Err(format!("{k:?}: invalid input {} ({r:?}) accepted as {}", hex(buf), short(&w))),
    }
}
fn note_input(cx: &mut Cx, e: &Entry, buf: &[u8], cls: &'static str) {
    cx.class(cls);
    cx.note(|| format!("{} from {}", e.name, hex(buf)));
    match decode(&e.sch, buf) {
        Ok((_, n, nc)) => {
            cx.class(if n == buf.len() { "accepted whole" } else { "accepted, bytes follow" });
            if nc {
                cx.class("accepted, non-canonical");
            }
        }
        Err(r) => cx.class(match r {
            Rej::Short => "rejected: short",
            Rej::BadBool => "rejected: boolean",
            Rej::BadTag => "rejected: tag",
            Rej::Range => "rejected: integer range",
            Rej::Float => "rejected: float range",
            Rej::PrefixRange => "rejected: prefix range",
            Rej::PrefixTooLong => "rejected: prefix exceeds extent",
            Rej::Residue => "rejected: residue",
            Rej::Count => "rejected: count",
            Rej::Unterminated => "rejected: unterminated number",
            Rej::Padding => "rejected: padding",
            Rej::NoRoomForSuffix => "rejected: no room for suffix",
        }),
    }
}
fn c05(e: &'static Entry, cx: &mut Cx) -> R {
    let (buf, cls) = gen_input(&mut cx.s, &e.sch);
    note_input(cx, e, &buf, cls);
    if !buf.is_empty() {
        cx.nontrivial(&(e.name, &buf));
    }
    let k = KINDS[(buf.len() + buf.first().copied().unwrap_or(0) as usize) % 3];
    conforms(e, k, &buf)
}
/// Every input of at most one byte, and (thorough) every two-byte input.
fn tiny(f: impl Fn(&'static Entry, &[u8]) -> R + Copy + Send + Sync + 'static, n2: u64) -> Vec<Target> {
    let n = reg().len() as u64;
    let mut v = vec![enumerated("all inputs of length 0 and 1", n * 257, move |cx, i| {
        let e = &reg()[(i / 257) as usize];
        let b = i % 257;
        let buf: Vec<u8> = if b == 256 { vec![] } else { vec![b as u8] };
        cx.nontrivial(&i);
        cx.note(|| format!("{} from {}", e.name, hex(&buf)));
        f(e, &buf)
    })];
    let mut t = target("inputs of length 2", n2, n * 65536, move |cx| {
        let e = cx.s.pick(reg());
        let b = cx.s.draw(65535) as u16;
        let buf = b.to_be_bytes().to_vec();
        cx.nontrivial(&(e.name, b));
        cx.note(|| format!("{} from {}", e.name, hex(&buf)));
        f(e, &buf)
    });
    t.exhaustive = false;
    v.push(t);
    v
}

// ---------------------------------------------------------------- C06

fn agree(e: &Entry, buf: &[u8], a: &Around) -> R {
    let mut first: Option<(Result<Val, String>, Vec<u8>)> = None;
    for k in KINDS {
        let o = e.ops.decode(k, buf, a);
        let cur = (o.res.map_err(|x| format!("{x:?}")), o.rest);
        match &first {
            None => first = Some(cur),
            Some(f) => match (&f.0, &cur.0) {
                (Ok(x), Ok(y)) => {
                    ensure!(x == y, "{k:?} decodes {} as {} but the byte parser as {}", hex(buf), short(y), short(x));
                    ensure!(f.1 == cur.1, "{k:?} leaves {} but the byte parser {} of {}", hex(&cur.1), hex(&f.1), hex(buf));
                }
                (Err(_), Err(_)) => {}
                (x, y) => return Err(format!("{k:?} gives {y:?} but the byte parser {x:?} on {}", hex(buf))),
            },
        }
    }
    Ok(())
}
fn c06(e: &'static Entry, cx: &mut Cx) -> R {
    let (buf, cls) = gen_input(&mut cx.s, &e.sch);
    note_input(cx, e, &buf, cls);
    let a = around(cx, &buf);
    let mut full = a.1;
    full.extend(&buf);
    full.extend(&a.2);
    cx.nontrivial(&(e.name, &full, a.0.window));
    agree(e, &full, &a.0)
}
/// Random surroundings: bytes before, bytes after, maybe an enclosing window.
fn around(cx: &mut Cx, buf: &[u8]) -> (Around, Vec<u8>, Vec<u8>) {
    let n = cx.s.range(0, 4);
    let pre = cx.s.bytes(n);
    let m = cx.s.range(0, 4);
    let post = cx.s.bytes(m);
    let window = if cx.s.coin() { Some(cx.s.range(0, buf.len() + post.len())) } else { None };
    (Around { skip: n, window }, pre, post)
}

// ---------------------------------------------------------------- C07

fn hostile(e: &Entry, buf: &[u8]) -> R {
    for k in KINDS {
        alloc::reset();
        let budget = 4000 + 400 * buf.len() as u64;
        let mut p = AnyParser::new(k, buf, budget);
        let r = e.ops.parse_any(&mut p);
        let decoded = alloc::peak();
        p.left.set(u64::MAX);
        let before = p.remainder();
        ensure!(before <= buf.len(), "{k:?}: {before} bytes remain of an input of {}", buf.len());
        let cl = p.cleanup();
        let limit = (1 << 18) + 4096 * buf.len();
        let peak = alloc::peak();
        ensure!(peak <= limit, "{k:?}: {peak} bytes allocated (decoding alone {decoded}) for an input of {} bytes: {}", buf.len(), hex(buf));
        drop((r, cl));
    }
    for memo in [false, true] {
        // the infallible entry points panic by contract, but only with their own message
        // (so only where the fallible one reports an error)
        let fallible = e.ops.try_decode(if memo { Kind::Memo } else { Kind::Byte }, buf);
        if let (Err(m), Ok(_)) = (e.ops.decode_or_panic(memo, buf), &fallible) {
            return Err(format!("decode (memo {memo}) of {} panicked although it decodes: {m}", hex(buf)));
        }
    }
    let _ = e.ops.try_decode(Kind::Slice, buf);
    Ok(())
}
fn c07(e: &'static Entry, cx: &mut Cx) -> R {
    let (mut buf, cls) = gen_input(&mut cx.s, &e.sch);
    if cx.s.chance(1, 40) {
        let n = cx.s.range(0, 3000);
        let b = cx.s.byte();
        buf.extend(std::iter::repeat(b).take(n));
    }
    note_input(cx, e, &buf, cls);
    cx.nontrivial(&(e.name, &buf));
    hostile(e, &buf)
}

/// Bytes that nest the recursive type `depth` levels deep; `done` says whether
/// the innermost level is there too.
fn nested(shape: u64, depth: usize, done: bool) -> Vec<u8> {
    let leaf: &[u8] = &[0, 0]; // Int(0)
    let mut out = vec![];
    match shape {
        0 => {
            // Pair(Pair(..), leaf)
            out.resize(depth, 4);
            if done {
                for _ in 0..=depth {
                    out.extend_from_slice(leaf);
                }
            }
        }
        1 | 2 => {
            for i in 0..depth {
                out.extend_from_slice(if shape == 1 || i % 3 == 0 { &[3, 2] } else { &[5, 0xff] });
            }
            if done {
                out.extend_from_slice(leaf);
            }
        }
        _ => {
            // Seq([Seq([..])]), each level with its own length prefix
            let tail = if done { leaf.len() } else { 0 };
            for i in 0..depth {
                out.push(2);
                out.extend(((5 * (depth - 1 - i) + tail) as u32).to_be_bytes());
            }
            if done {
                out.extend_from_slice(leaf);
            }
        }
    }
    out
}
/// Values of a recursive type as deep as a few hundred or thousand levels,
/// which no generator bounded by size gets to.
fn deep(quick: u64, thorough: u64, mutate: bool, f: impl Fn(&'static Entry, &[u8], &mut Cx) -> R + Copy + Send + Sync + 'static) -> Target {
    let e = reg().iter().find(|e| e.name == "Expr").unwrap();
    target("deep values", quick, thorough, move |cx| {
        let shape = cx.s.draw(3);
        let depth = match cx.s.draw(2) {
            0 => cx.s.range(1, 80),
            1 => ((1usize << cx.s.range(5, 10)) + cx.s.range(0, 2)) - 1,
            _ => cx.s.range(80, 1100),
        };
        let mut buf = nested(shape, depth, true);
        let mutation = cx.s.draw(if mutate { 3 } else { 0 });
        let at = if mutation > 0 { cx.s.range(0, buf.len() - 1) } else { 0 };
        match mutation {
            1 => buf.truncate(at),
            2 => buf[at] ^= 1 << cx.s.draw(7),
            3 => buf.insert(at, cx.s.byte()),
            _ => {}
        }
        cx.nontrivial(&(shape, depth, mutation, at));
        cx.class(if depth < 80 { "deep: tens of levels" } else { "deep: hundreds of levels" });
        cx.note(|| format!("Expr of shape {shape} and depth {depth}"));
        f(e, &buf, cx)
    })
}

/// Decodes one deeply nested input on a stack of the usual 8 MiB, and exits.
pub fn nest_child() -> ! {
    let a: Vec<u64> = std::env::args().skip(2).map(|x| x.parse().unwrap()).collect();
    let buf = nested(a[0], a[1] as usize, a[2] == 1);
    let kind = KINDS[a[3] as usize % KINDS.len()];
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || match kind {
            Kind::Byte => crate::types::Expr::try_decode::<_, parse::byteparser::ByteParser>(buf).is_ok(),
            Kind::Memo => crate::types::Expr::try_decode::<_, parse::memoparser::MemoParser>(buf).is_ok(),
            Kind::Slice => crate::types::Expr::parse(&mut parse::sliceparser::SliceParser::from_buffer(parse::buffer::SliceBuffer::from(&buf[..]))).is_ok(),
        })
        .unwrap();
    match h.join() {
        Ok(ok) => std::process::exit(if ok == (a[2] == 1 || a[0] >= 3) { 0 } else { 4 }),
        Err(_) => std::process::exit(5),
    }
}
/// Nested input of a recursive type.  The decoder recurses, so this runs in a
/// process of its own.
fn nesting(deep: bool) -> Target {
    target(if deep { "deep nesting of Expr" } else { "moderate nesting of Expr" }, if deep { 1 } else { 4 }, if deep { 2 } else { 40 }, move |cx| {
        let depth = if deep { 100_000 * cx.s.range(1, 10) } else { 1usize << cx.s.range(0, 7) };
        let depth = depth + cx.s.range(0, depth / 2);
        let (shape, done, kind) = (cx.s.range(0, 3), cx.s.coin(), cx.s.range(0, 2));
        cx.nontrivial(&(depth, shape, done, kind));
        cx.note(|| format!("Expr nested {depth} deep, shape {shape}, complete {done}, {:?}", KINDS[kind]));
        let st = std::process::Command::new(std::env::current_exe().unwrap())
            .arg("--nest")
            .args([shape, depth, done as usize, kind].map(|x| x.to_string()))
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status()
            .map_err(|e| e.to_string())?;
        // the recorded finding, told apart from any other way to fail
        let known = deep && st.code().is_none();
        ensure!(st.success(), "{}decoding {depth} levels of nesting ends the process with {st}", if known { "deep-nesting-overflow: " } else { "" });
        Ok(())
    })
}

// ---------------------------------------------------------------- C09

/// `Dynamic<S, T>` against decoding `T` from exactly the payload.
fn confined<S, T>(name: &'static str) -> Target
where
    S: dynamic::LenPref + PrefKind + Send + Sync + 'static,
    T: Wire,
    Dynamic<S, T>: Wire,
{
    target(name, 500, 20_000, move |cx| {
        let inner = entry::<T>(name);
        let outer = entry::<Dynamic<S, T>>(name);
        let p = <S as PrefKind>::P;
        let (mut payload, cls) = gen_input(&mut cx.s, &inner.sch);
        payload.truncate(p.max() as usize);
        cx.class(cls);
        let mut len = payload.len();
        if cx.s.chance(1, 4) {
            len = cx.s.range(0, payload.len() + 3).min(p.max() as usize);
        }
        let mut head = vec![];
        be(len as i128, p.width(), &mut head);
        let n = cx.s.range(0, 6);
        let t1 = cx.s.bytes(n);
        let m = cx.s.range(0, 6);
        let t2 = cx.s.bytes(m);
        cx.nontrivial(&(&payload, len));
        cx.note(|| format!("{name}: prefix {len}, payload {}, tail {}", hex(&payload), hex(&t1)));
        for k in KINDS {
            let mk = |t: &[u8]| [&head[..], &payload[..], t].concat();
            let full = mk(&t1);
            let a = outer.ops.decode(k, &full, &Around::default());
            let body = &full[p.width()..];
            if len > body.len() {
                ensure!(a.res.is_err(), "{k:?}: prefix {len} exceeds the {} bytes present but {} was accepted", body.len(), hex(&full));
                continue;
            }
            let (pay, rest) = body.split_at(len);
            // oracle: the payload alone, all of it
            let b = inner.ops.decode(k, pay, &Around::default());
            match (&a.res, &b.res) {
                (Ok(x), Ok(y)) => {
                    ensure!(b.rest.is_empty(), "{k:?}: {} accepted although the payload uses only part of its extent", hex(&full));
                    ensure!(x == y, "{k:?}: {} in context but {} alone", short(x), short(y));
                    ensure!(a.rest == rest, "{k:?}: {} follows the payload but {} is read next", hex(rest), hex(&a.rest));
                }
                (Err(x), Ok(y)) => ensure!(!b.rest.is_empty(), "{k:?}: payload {} ({}) rejected in context: {x:?}", hex(pay), short(y)),
                (Ok(x), Err(y)) => return Err(format!("{k:?}: payload {} accepted in context as {} but alone {y:?}", hex(pay), short(x))),
                (Err(_), Err(_)) => {}
            }
            // nothing after the extent matters
            if len <= payload.len() {
                let c = outer.ops.decode(k, &mk(&t2), &Around::default());
                match (&a.res, &c.res) {
                    (Ok(x), Ok(y)) => ensure!(x == y, "{k:?}: the bytes after the extent changed the value from {} to {}", short(x), short(y)),
                    (Err(_), Err(_)) => {}
                    _ => return Err(format!("{k:?}: the bytes after the extent changed the outcome of {}", hex(&full))),
                }
            }
            // an enclosing extent that is too narrow is never exceeded
            if !full.is_empty() {
                let w = cx.s.range(0, full.len());
                let c = outer.ops.decode(k, &full, &Around { skip: 0, window: Some(w) });
                if w < p.width() + len {
                    ensure!(c.res.is_err(), "{k:?}: a {len}-byte payload was decoded inside a {w}-byte extent");
                } else if let (Ok(x), Ok(y)) = (&a.res, &c.res) {
                    ensure!(x == y, "{k:?}: enclosing extent changed the value");
                } else {
                    ensure!(a.res.is_ok() == c.res.is_ok(), "{k:?}: enclosing extent changed the outcome");
                }
            }
        }
        Ok(())
    })
}
fn reserved<T: Wire, const K: usize>(name: &'static str) -> Target
where
    VPadded<T, K>: Wire,
{
    target(name, 500, 20_000, move |cx| {
        let inner = entry::<T>(name);
        let outer = entry::<VPadded<T, K>>(name);
        let (payload, cls) = gen_input(&mut cx.s, &inner.sch);
        cx.class(cls);
        let cut = cx.s.chance(1, 5);
        let sfx = cx.s.bytes(K);
        let mut full = [&payload[..], &sfx[..]].concat();
        if cut {
            let n = cx.s.range(0, full.len());
            full.truncate(n);
        }
        cx.nontrivial(&(&full, K));
        cx.note(|| format!("{name}: {} then {}", hex(&payload), hex(&sfx)));
        for k in KINDS {
            // optionally the whole thing sits in a window with more bytes behind
            let tail = cx.s.bytes(3);
            let inwin = cx.s.coin();
            let buf = if inwin { [&full[..], &tail[..]].concat() } else { full.clone() };
            let a = outer.ops.decode(k, &buf, &Around { skip: 0, window: inwin.then_some(full.len()) });
            if full.len() < K {
                ensure!(a.res.is_err(), "{k:?}: fewer than {K} bytes but accepted");
                continue;
            }
            let (pay, rest) = full.split_at(full.len() - K);
            let b = inner.ops.decode(k, pay, &Around::default());
            match (&a.res, &b.res) {
                (Ok(x), Ok(y)) => {
                    ensure!(b.rest.is_empty(), "{k:?}: accepted although the payload leaves bytes before the reserved suffix");
                    ensure!(x == y, "{k:?}: {} in context but {} alone", short(x), short(y));
                    ensure!(a.rest == rest, "{k:?}: reserved suffix {} but {} is read next", hex(rest), hex(&a.rest));
                }
                (Err(x), Ok(_)) => ensure!(!b.rest.is_empty(), "{k:?}: payload {} rejected in context: {x:?}", hex(pay)),
                (Ok(x), Err(y)) => return Err(format!("{k:?}: payload {} accepted as {} but alone {y:?}", hex(pay), short(x))),
                (Err(_), Err(_)) => {}
            }
        }
        Ok(())
    })
}
/// A value of any type inside an extent of its own: nothing beyond is read,
/// and the extents around it are as they were.
fn in_extent(e: &'static Entry, cx: &mut Cx) -> R {
    let (body, cls) = gen_input(&mut cx.s, &e.sch);
    let n = cx.s.range(0, 5);
    let pre = cx.s.bytes(n);
    let n = cx.s.range(0, 6);
    let tail = cx.s.bytes(n);
    cx.class(cls);
    cx.nontrivial(&(e.name, &body, &tail));
    cx.note(|| format!("{}: {} | {} | {}", e.name, hex(&pre), hex(&body), hex(&tail)));
    let buf = [&pre[..], &body[..], &tail[..]].concat();
    let want = decode(&e.sch, &body);
    for k in KINDS {
        let got = e.ops.decode(k, &buf, &Around { skip: pre.len(), window: Some(body.len()) });
        match (&want, &got.res) {
            (Ok((v, n, _)), Ok(w)) => {
                ensure!(v == w, "{k:?}: {} in its extent instead of {}", short(w), short(v));
                ensure!(got.rest == body[*n..], "{k:?}: {} is left in the extent instead of {}", hex(&got.rest), hex(&body[*n..]));
            }
            (Err(_), Err(_)) => {}
            (Ok((v, ..)), Err(x)) => return Err(format!("{k:?}: {} ({}) rejected in its extent: {x:?}", hex(&body), short(v))),
            (Err(r), Ok(w)) => return Err(format!("{k:?}: {} ({r:?}) accepted in its extent as {}", hex(&body), short(w))),
        }
    }
    Ok(())
}
fn padded<T: Wire, const K: usize>(name: &'static str) -> Target
where
    Padded<T, K>: Wire,
{
    target(name, 300, 10_000, move |cx| {
        let inner = entry::<T>(name);
        let outer = entry::<Padded<T, K>>(name);
        let (payload, cls) = gen_input(&mut cx.s, &inner.sch);
        cx.class(cls);
        let n = cx.s.range(0, K + 3);
        let zero = cfg!(feature = "check_padding");
        let pad = if zero { vec![0; n] } else { cx.s.bytes(n) };
        let full = [&payload[..], &pad[..]].concat();
        cx.nontrivial(&(&full, K));
        cx.note(|| format!("{name}: {} then {}", hex(&payload), hex(&pad)));
        for k in KINDS {
            let a = outer.ops.decode(k, &full, &Around::default());
            let b = inner.ops.decode(k, &full, &Around::default());
            match (&a.res, &b.res) {
                (Ok(x), Ok(y)) => {
                    ensure!(x == y, "{k:?}: {} padded but {} plain", short(x), short(y));
                    ensure!(b.rest.len() >= K && a.rest == b.rest[K..], "{k:?}: {} left after {K} bytes of padding of {}", hex(&a.rest), hex(&b.rest));
                }
                (Err(x), Ok(_)) => {
                    let bad = zero && b.rest.len() >= K && b.rest[..K].iter().any(|b| *b != 0);
                    ensure!(b.rest.len() < K || bad, "{k:?}: rejected although {} bytes of padding are there: {x:?}", b.rest.len())
                }
                (Ok(_), Err(y)) => return Err(format!("{k:?}: accepted with padding but plain {y:?}")),
                (Err(_), Err(_)) => {}
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C21

fn c21(e: &'static Entry, cx: &mut Cx) -> R {
    let (buf, cls) = gen_input(&mut cx.s, &e.sch);
    note_input(cx, e, &buf, cls);
    let complete = cfg!(feature = "check_complete_parse");
    let want = decode(&e.sch, &buf);
    if want.is_ok() {
        cx.nontrivial(&(e.name, &buf));
    }
    for k in KINDS {
        let got = e.ops.try_decode(k, &buf);
        match (&want, &got) {
            (Ok((v, n, _)), Ok(w)) => {
                ensure!(v == w, "{k:?}: {} instead of {}", short(w), short(v));
                ensure!(!complete || *n == buf.len(), "{k:?}: {} accepted although {} bytes are left over", hex(&buf), buf.len() - n);
            }
            (Ok((_, n, _)), Err(x)) => {
                ensure!(complete && *n < buf.len(), "{k:?}: {} rejected with {} bytes left over: {x:?}", hex(&buf), buf.len() - n);
                match x {
                    conv::error::DecodeError::NonEmpty(LeftoverState::Windowless(b)) => ensure!(b[..] == buf[*n..], "{k:?}: leftover reported as {} instead of {}", hex(b), hex(&buf[*n..])),
                    x => return Err(format!("{k:?}: leftover bytes reported as {x:?}")),
                }
            }
            (Err(r), Ok(w)) => return Err(format!("{k:?}: invalid input {} ({r:?}) accepted as {}", hex(&buf), short(w))),
            (Err(_), Err(_)) => {}
        }
    }
    Ok(())
}
fn c21_padding(cx: &mut Cx) -> R {
    let pads: Vec<&'static Entry> = reg().iter().filter(|e| e.sch.has_padding()).collect();
    let e = *cx.s.pick(&pads);
    let v = gen_val(&mut cx.s, &e.sch, 60);
    let mut b = vec![];
    let mut marks = vec![];
    enc(&e.sch, &v, &mut b, &mut marks);
    let pm: Vec<(usize, usize)> = marks.iter().filter(|m| m.2 == Mark::Pad).map(|m| (m.0, m.1)).collect();
    if !recoverable(&e.sch, &v) || pm.is_empty() {
        return Ok(());
    }
    let dirty = cx.s.coin();
    let mut which = vec![];
    if dirty {
        let (at, n) = *cx.s.pick(&pm);
        let i = at + cx.s.range(0, n - 1);
        let x = 1 + cx.s.draw(254) as u8;
        b[i] = x;
        which = b[at..at + n].to_vec();
    }
    b.resize(b.len() + reserve_of(&e.sch, &v), 0);
    cx.nontrivial(&(e.name, &b));
    cx.class(if dirty { "padding: dirty" } else { "padding: clean" });
    cx.note(|| format!("{} {} dirty={dirty}", e.name, hex(&b)));
    let strict = cfg!(feature = "check_padding");
    for k in KINDS {
        let o = e.ops.decode(k, &b, &Around::default());
        match o.res {
            Ok(w) => {
                ensure!(!(strict && dirty), "{k:?}: non-zero padding accepted in {}", hex(&b));
                ensure!(w == v, "{k:?}: padding changed the value to {}", short(&w));
            }
            Err(x) => {
                ensure!(strict && dirty, "{k:?}: {} rejected: {x:?}", hex(&b));
                match x {
                    ParseError::Token(TokenError::NonNullPaddingByte { padding }) => ensure!(padding == which, "{k:?}: offending padding reported as {} instead of {}", hex(&padding), hex(&which)),
                    x => return Err(format!("{k:?}: dirty padding reported as {x:?}")),
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C24 (decoding)

fn c24(e: &'static Entry, cx: &mut Cx) -> R {
    let (buf, cls) = gen_input(&mut cx.s, &e.sch);
    note_input(cx, e, &buf, cls);
    let Some((rej, fail)) = decode_fail(&e.sch, &buf, opts()) else { return Ok(()) };
    cx.nontrivial(&(e.name, &buf));
    for k in KINDS {
        let o = e.ops.decode(k, &buf, &Around::default());
        let x = match o.res {
            Err(x) => x,
            Ok(_) => continue, // C05's business
        };
        let bad = |what: &str| Err(format!("{k:?}: {} is rejected for {fail:?} but the error says {x:?} ({what})", hex(&buf)));
        match (&fail, &x) {
            (Fail::Read { need, left }, ParseError::Window(WindowError::ConsumeWouldExceedLimit { offset, requested, limit })) => {
                if limit < offset || limit - offset > *left || requested > need || *requested <= limit - offset {
                    return bad("quantities");
                }
            }
            (Fail::Bool(b), ParseError::Token(TokenError::InvalidBoolean(c))) => {
                if b != c {
                    return bad("byte");
                }
            }
            (Fail::Tag { tag, width, tags }, ParseError::Token(t)) => {
                let (w, a, ts, shown) = match t {
                    TokenError::InvalidTagU8(t) => (1, dbg_tag(t), dbg_tags(t), t.to_string()),
                    TokenError::InvalidTagU16(t) => (2, dbg_tag(t), dbg_tags(t), t.to_string()),
                    TokenError::InvalidTagU30(t) => (4, dbg_tag(t), dbg_tags(t), t.to_string()),
                    _ => return bad("kind"),
                };
                let mut want = tags.clone();
                want.sort();
                let ts = ts.map(|mut t| {
                    t.sort();
                    t
                });
                if w != *width || a.is_some_and(|a| a != *tag) || ts.as_ref().is_some_and(|t| *t != want) {
                    return bad("tag quantities");
                }
                if !shown.contains(&format!("{tag:x}")) && !shown.contains(&tag.to_string()) {
                    return bad("display");
                }
            }
            (Fail::Int { wire, min, max }, ParseError::External(ExternalError::IntRangeViolation(b))) => {
                if !bounds_true(b, *wire, *min, *max) {
                    return bad("bounds");
                }
            }
            (Fail::Float { val, min, max }, ParseError::External(ExternalError::FloatRangeViolation(b))) => {
                use error::BoundsError::*;
                let ok = match b {
                    Underflow { min: m, val: v } => v.to_bits() == val.to_bits() && m == min && !(v >= m),
                    Overflow { max: m, val: v } => v.to_bits() == val.to_bits() && m == max && !(v <= m),
                    _ => false,
                };
                if !ok {
                    return bad("bounds");
                }
            }
            (Fail::PrefixRange { val, max }, ParseError::External(ExternalError::IntRangeViolation(b))) => {
                if !bounds_true(b, *val as i128, 0, *max as i128) {
                    // a set sign bit may be reported as the negative number it spells
                    let neg = *val as u32 as i32 as i128;
                    if !bounds_true(b, neg, 0, *max as i128) {
                        return bad("bounds");
                    }
                }
            }
            (Fail::Open { want, left }, ParseError::Window(WindowError::OpenWouldExceedWindow { limit, request })) => {
                if limit != left || request != want {
                    return bad("window quantities");
                }
            }
            (Fail::Open { want, .. }, ParseError::Window(WindowError::OpenWouldExceedBuffer { bytes_left, request })) => {
                // everything up to the end of the buffer counts here
                let consumed = consumed_at_failure(&e.sch, &buf);
                if request != want || *bytes_left != buf.len() - consumed {
                    return bad("buffer quantities");
                }
            }
            (Fail::Residue(n), ParseError::Window(WindowError::CloseWithResidue { residual })) => {
                if n != residual {
                    return bad("residue");
                }
            }
            (Fail::Exact { exact, actual }, ParseError::External(ExternalError::LengthViolation(error::LengthError::WrongLength { exact: a, actual: b }))) => {
                if exact != a || actual != b {
                    return bad("count");
                }
            }
            (Fail::Over { limit }, ParseError::External(ExternalError::LengthViolation(error::LengthError::TooLong { limit: a, actual }))) => {
                if limit != a || *actual != limit + 1 {
                    return bad("count");
                }
            }
            (Fail::NonTerm(b), ParseError::Token(TokenError::NonTerminating(c))) => {
                if b != c {
                    return bad("bytes");
                }
            }
            (Fail::Padding(b), ParseError::Token(TokenError::NonNullPaddingByte { padding })) => {
                if b != padding {
                    return bad("padding");
                }
            }
            (Fail::NoRoom { .. }, ParseError::Window(_)) => {}
            _ => return bad("kind"),
        }
        let _ = rej;
        // every error can be shown
        if x.to_string().is_empty() {
            return Err(format!("{k:?}: error without a text: {x:?}"));
        }
    }
    Ok(())
}
fn consumed_at_failure(s: &Sch, buf: &[u8]) -> usize {
    let mut d = Dec { buf, pos: 0, end: buf.len(), noncanon: false, opts: opts(), fail: None };
    let _ = d.go(s);
    d.pos
}
pub fn bounds_true(b: &error::BoundsError<i64>, wire: i128, min: i128, max: i128) -> bool {
    use error::BoundsError::*;
    // With a positive minimum the wire carries val - min; the error may speak
    // of either scale, consistently.
    let scales: &[(i128, i128, i128)] = &[(wire, min, max), (wire, 0, max - min), (wire + min, min, max)];
    let n = if min > 0 { 3 } else { 1 };
    scales[..n].iter().enumerate().any(|(i, (v, lo, hi))| match b {
        Underflow { min: m, val } => *m as i128 == *lo && *val as i128 == *v && v < lo,
        Overflow { max: m, val } => *m as i128 == *hi && *val as i128 == *v && v > hi,
        IllegalNegative { min: m, val } => i == 0 && min > 0 && *m as i128 == min && *val as i128 == wire && wire < 0,
        InvalidBounds { .. } | Failed(_) => false,
    }) && !(min > 0 && matches!(b, Overflow { max: m, .. } if *m as i128 == max) && wire <= max && wire + min <= max)
}
/// The fields of a tag error are private; their debug form is the public view.
pub fn dbg_tag<T: parse::error::TagType>(t: &parse::error::TagError<T>) -> Option<u64> {
    let s = format!("{t:?}");
    s.split("actual: ").nth(1)?.split([',', ' ', '}']).next()?.parse().ok()
}
pub fn dbg_tags<T: parse::error::TagType>(t: &parse::error::TagError<T>) -> Option<Vec<u64>> {
    let s = format!("{t:?}");
    let l = s.split("Some([").nth(1)?.split("])").next()?;
    Some(l.split(", ").filter(|x| !x.is_empty()).map(|x| x.parse().unwrap_or(u64::MAX)).collect())
}

// ---------------------------------------------------------------- C28

fn c28(e: &'static Entry, cx: &mut Cx) -> R {
    let (buf, cls) = gen_input(&mut cx.s, &e.sch);
    note_input(cx, e, &buf, cls);
    cx.nontrivial(&(e.name, &buf));
    let base = e.ops.try_decode_form(1, &buf).unwrap();
    for f in [0, 2, 3, 4, 5] {
        let r = e.ops.try_decode_form(f, &buf).unwrap();
        match (&base, &r) {
            (Ok(x), Ok(y)) => ensure!(x == y, "input form {f} gives {} but a slice gives {}", short(y), short(x)),
            (Err(_), Err(_)) => {}
            _ => return Err(format!("input form {f} gives {r:?} but a slice gives {base:?} for {}", hex(&buf))),
        }
    }
    for memo in [false, true] {
        match (&base, e.ops.decode_or_panic(memo, &buf)) {
            (Ok(x), Ok(y)) => ensure!(*x == y, "decode (memo {memo}) gives {} but try_decode {}", short(&y), short(x)),
            (Err(_), Err(_)) => {}
            (Ok(_), Err(m)) => return Err(format!("decode (memo {memo}) panicked ({m}) although try_decode succeeds on {}", hex(&buf))),
            (Err(x), Ok(_)) => return Err(format!("decode (memo {memo}) returned although try_decode fails ({x}) on {}", hex(&buf))),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C29

fn c29(e: &'static Entry, cx: &mut Cx) -> R {
    let greedy = !e.sch.self_delimiting();
    // any input, valid or not, judged alone and in context
    let (mut buf, cls) = if cx.s.coin() {
        let v = gen_val(&mut cx.s, &e.sch, 120);
        (encode(&e.sch, &v), "input: valid")
    } else {
        gen_input(&mut cx.s, &e.sch)
    };
    if cls == "input: valid" {
        buf.resize(buf.len() + e.sch.reserve(), 0);
    }
    cx.class(cls);
    let n = cx.s.small_len().min(40);
    let pre = cx.s.bytes(n);
    let m = cx.s.small_len().min(40);
    let post = cx.s.bytes(m);
    let full = [&pre[..], &buf[..], &post[..]].concat();
    cx.nontrivial(&(e.name, &full));
    cx.note(|| format!("{} from {} between {} and {} bytes", e.name, hex(&buf), pre.len(), post.len()));
    let windowed = greedy || cx.s.coin();
    cx.class(if windowed { "context: window of exact size" } else { "context: open stream" });
    for k in KINDS {
        let a = e.ops.decode(k, &buf, &Around::default());
        let b = e.ops.decode(k, &full, &Around { skip: pre.len(), window: windowed.then_some(buf.len()) });
        match (&a.res, &b.res) {
            (Ok(x), Ok(y)) => {
                ensure!(x == y, "{k:?}: alone {} but in context {}", short(x), short(y));
                let mut want = a.rest.clone();
                if !windowed {
                    want.extend(&post);
                }
                ensure!(want == b.rest, "{k:?}: next unread {} but expected {}", hex(&b.rest), hex(&want));
            }
            (Err(_), Err(_)) => {}
            // more bytes may complete a truncated value in an open stream
            (Err(_), Ok(_)) if !windowed => {}
            (x, y) => return Err(format!("{k:?}: alone {x:?} but in context {y:?} for {}", hex(&buf))),
        }
    }
    Ok(())
}
fn c29_stream(cx: &mut Cx) -> R {
    // values of any type, greedy ones in a window, read in one history
    let n = cx.s.range(1, 6);
    let mut bytes = vec![];
    let mut items: Vec<(&'static Entry, Option<Val>, usize, usize)> = vec![];
    for _ in 0..n {
        let e = cx.s.pick(reg());
        let v = gen_val(&mut cx.s, &e.sch, 40);
        if !recoverable(&e.sch, &v) {
            continue;
        }
        let mut b = encode(&e.sch, &v);
        let r = reserve_of(&e.sch, &v);
        b.resize(b.len() + r, 7);
        items.push((e, Some(v), b.len(), r));
        bytes.extend(b);
    }
    cx.nontrivial(&bytes);
    cx.note(|| items.iter().map(|i| i.0.name).collect::<Vec<_>>().join(" ; "));
    for k in KINDS {
        let mut p = AnyParser::new(k, &bytes, 1 << 20);
        let mut left = bytes.len();
        for (i, (e, v, len, res)) in items.iter().enumerate() {
            let win = !e.sch.self_delimiting();
            if win {
                p.set_fit(*len).map_err(|x| format!("{k:?}: window of {len} refused: {x:?}"))?;
            }
            match e.ops.parse_any(&mut p) {
                Ok(w) => ensure!(Some(&w) == v.as_ref(), "{k:?}: item {i} ({}) decoded as {}", e.name, short(&w)),
                Err(x) => return Err(format!("{k:?}: item {i} ({}): {x:?}", e.name)),
            }
            if win {
                ensure_eq!(p.remainder(), *res, "{k:?}: bytes left in the window of item {i} ({})", e.name);
                p.take_dynamic(*res).map_err(|x| format!("{k:?}: {x:?}"))?;
                p.enforce_target().map_err(|x| format!("{k:?}: closing the window of item {i}: {x:?}"))?;
            }
            left -= len;
            ensure_eq!(p.remainder(), left, "{k:?}: bytes left after item {i} ({})", e.name);
        }
        match p.cleanup() {
            Ok(LeftoverState::Empty) => {}
            x => return Err(format!("{k:?}: everything was read but cleanup says {x:?}")),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C30

fn c30(e: &'static Entry, cx: &mut Cx) -> R {
    let (buf, cls) = gen_input(&mut cx.s, &e.sch);
    note_input(cx, e, &buf, cls);
    let o = e.ops.decode(Kind::Byte, &buf, &Around::default());
    let Ok(v) = o.res else { return Ok(()) };
    if o.rest.len() > buf.len() {
        return Err("more left than there was".into());
    }
    cx.nontrivial(&(e.name, &buf));
    let used = &buf[..buf.len() - o.rest.len()];
    let re = match guard(|| e.ops.reencode(&buf)) {
        Ok(r) => r,
        // replaced text can outgrow its length prefix; nothing else can
        Err(_) if encode_len(&e.sch, &v).is_none() => {
            cx.class("re-encoding: replaced text too long for its prefix, refused");
            return Ok(());
        }
        Err(m) => return Err(format!("{} decodes to {}, which cannot be encoded: {m}", hex(used), short(&v))),
    };
    let re = match re {
        Ok(b) => b,
        Err(x) => return Err(format!("second decoding of {} fails: {x:?}", hex(&buf))),
    };
    // whether this input uses one of the licensed liberties is decided by the
    // reference decoder; without one the bytes must come back
    let noncanon = matches!(decode(&e.sch, &buf), Ok((.., true)));
    if !noncanon {
        ensure!(re == used, "{} decodes to {} which re-encodes to {}", hex(used), short(&v), hex(&re));
    } else {
        cx.class("re-encoding: licensed normalisation");
        let mut again = re.clone();
        again.resize(again.len() + reserve_of(&e.sch, &v), 0);
        let p = e.ops.decode(Kind::Byte, &again, &Around::default());
        match p.res {
            Ok(w) => ensure!(w == v, "{} decodes to {}, re-encodes to {} and that to {}", hex(used), short(&v), hex(&re), short(&w)),
            Err(x) => return Err(format!("{} decodes to {} but its re-encoding {} is rejected: {x:?}", hex(used), short(&v), hex(&re))),
        }
        ensure_eq!(e.ops.reencode(&again).map_err(|x| format!("{x:?}")), Ok(re.clone()), "stability of the normal form");
    }
    Ok(())
}

// ---------------------------------------------------------------- C22

/// One round of everything observable about a type, against the model; run in
/// every feature configuration.
fn c22(e: &'static Entry, cx: &mut Cx) -> R {
    let room = room(&mut cx.s, 150);
    let v = gen_val(&mut cx.s, &e.sch, room);
    cx.nontrivial(&(e.name, &v));
    cx.note(|| format!("{} value {}", e.name, short(&v)));
    let want = encode(&e.sch, &v);
    for (w, b) in e.ops.encodings(&v) {
        ensure!(b == want, "{w}: {} but the format prescribes {}", hex(&b), hex(&want));
    }
    for (w, l) in e.ops.lengths(&v) {
        ensure!(l == want.len(), "{w} says {l} but the encoding has {} bytes ({})", want.len(), short(&v));
    }
    if let Some(k) = e.ops.known() {
        ensure!(k == want.len(), "KNOWN says {k} but the encoding has {} bytes", want.len());
    }
    let (buf, cls) = gen_input(&mut cx.s, &e.sch);
    cx.class(cls);
    for k in KINDS {
        conforms(e, k, &buf)?;
    }
    Ok(())
}

pub fn lookup(id: &str) -> Option<Property> {
    let p = |id, rule, targets| Some(Property { id, rule, targets });
    match id {
        "C01" => {
            let mut t = per_type(220, 6000, c01);
            t.push(target("streams of mixed types", 4000, 200_000, c01_stream));
            t.push(deep(25, 1000, false, |e, b, cx| c01_value(e, decode(&e.sch, b).unwrap().0, cx)));
            p("C01", "a generated value whose encoding is unambiguous; distinct by type and value", t)
        }
        "C02" => {
            let mut t = per_type(220, 6000, c02);
            t.extend(exhaustive_ints());
            t.push(deep(25, 1000, false, |e, b, _| {
                let v = decode(&e.sch, b).unwrap().0;
                for (w, x) in e.ops.encodings(&v) {
                    ensure!(x == b, "{w}: {} but the format prescribes {}", hex(&x), hex(b));
                }
                Ok(())
            }));
            t.push(target("fields written with write_all_to!", 2000, 60_000, crate::tags::write_all));
            p("C02", "a generated value, encoded through every entry point and compared with the reference encoder; distinct by type and value", t)
        }
        "C03" => {
            let mut t = per_type(250, 8000, c03);
            t.push(deep(25, 1000, false, |e, b, _| {
                let v = decode(&e.sch, b).unwrap().0;
                for (w, l) in e.ops.lengths(&v) {
                    ensure!(l == b.len(), "{w} says {l} but the encoding has {} bytes", b.len());
                }
                Ok(())
            }));
            t.push(target("collections", 300, 20000, c03_collections));
            t.push(target("hand-built exact-length sequences", 40, 40, c03_undersaturated));
            t.push(target("lengths of plain containers", 2000, 60_000, crate::tags::containers));
            p("C03", "a generated value whose lengths were all compared; distinct by type and value", t)
        }
        "C04" => {
            let mut t = per_type(150, 5000, c04);
            t.push(target("push histories", 6000, 200_000, c04_history));
            t.push(target("long runs", 30, 400, c04_long));
            p("C04", "a value appended to non-fresh targets, or a history of pushes; distinct by contents", t)
        }
        "C05" => {
            let mut t = per_type(500, 20_000, c05);
            t.extend(tiny(|e, b| conforms(e, Kind::Byte, b), 60_000));
            t.push(deep(150, 5000, true, |e, b, _| KINDS.iter().try_for_each(|k| conforms(e, *k, b))));
            p("C05", "a non-empty input decoded and compared with the reference decoder; distinct by type and bytes", t)
        }
        "C06" => {
            let mut t = per_type(400, 15_000, c06);
            t.extend(tiny(|e, b| agree(e, b, &Around::default()), 30_000));
            t.push(deep(150, 5000, true, |e, b, cx| {
                let a = around(cx, b);
                agree(e, &[&a.1[..], b, &a.2[..]].concat(), &a.0)
            }));
            p("C06", "an input (with surroundings) decoded by all three kinds; distinct by type and bytes", t)
        }
        "C07" => {
            let mut t = per_type(300, 15_000, c07);
            t.extend(tiny(hostile, 20_000));
            t.push(deep(100, 3000, true, |e, b, _| hostile(e, b)));
            t.extend([nesting(false), nesting(true)]);
            p("C07", "an input decoded and cleaned up by all kinds under operation and allocation budgets; distinct by type and bytes", t)
        }
        "C09" => {
            let mut t = per_type(60, 2500, in_extent);
            t.extend(vec![
                confined::<u8, Bytes>("Dynamic<u8, Bytes>"),
                confined::<u16, String>("Dynamic<u16, String>"),
                confined::<u30, Bytes>("Dynamic<u30, Bytes>"),
                confined::<u8, u8>("Dynamic<u8, u8>"),
                confined::<u30, i64>("Dynamic<u30, i64>"),
                confined::<u8, bool>("Dynamic<u8, bool>"),
                confined::<u8, ()>("Dynamic<u8, ()>"),
                confined::<u16, N>("Dynamic<u16, N>"),
                confined::<u30, Z>("Dynamic<u30, Z>"),
                confined::<u8, Option<u16>>("Dynamic<u8, Option<u16>>"),
                confined::<u8, Nullable<u16>>("Dynamic<u8, Nullable<u16>>"),
                confined::<u16, Sequence<u16>>("Dynamic<u16, Sequence<u16>>"),
                confined::<u30, Sequence<Dynamic<u8, Bytes>>>("Dynamic<u30, Sequence<Dynamic<u8, Bytes>>>"),
                confined::<u8, LimSeq<u8, 3>>("Dynamic<u8, LimSeq<u8, 3>>"),
                confined::<u8, FixSeq<u8, 3>>("Dynamic<u8, FixSeq<u8, 3>>"),
                confined::<u8, VPadded<Bytes, 2>>("Dynamic<u8, VPadded<Bytes, 2>>"),
                confined::<u8, Padded<u8, 2>>("Dynamic<u8, Padded<u8, 2>>"),
                confined::<u30, Dynamic<u16, Dynamic<u8, Bytes>>>("Dynamic<u30, Dynamic<u16, Dynamic<u8, Bytes>>>"),
                confined::<u8, crate::types::Shape>("Dynamic<u8, Shape>"),
                confined::<u30, crate::types::Expr>("Dynamic<u30, Expr>"),
                confined::<u16, crate::types::Named4>("Dynamic<u16, Named4>"),
                confined::<u8, crate::types::Prime>("Dynamic<u8, Prime>"),
                confined::<u8, AutoBox<Bytes>>("Dynamic<u8, AutoBox<Bytes>>"),
                confined::<u8, FixedBytes<4>>("Dynamic<u8, FixedBytes<4>>"),
                confined::<u16, FixedString<3>>("Dynamic<u16, FixedString<3>>"),
                confined::<u16, RangedInt<u16, 250, 260>>("Dynamic<u16, RangedInt<u16, 250, 260>>"),
                reserved::<Bytes, 0>("VPadded<Bytes, 0>"),
                reserved::<Bytes, 4>("VPadded<Bytes, 4>"),
                reserved::<String, 3>("VPadded<String, 3>"),
                reserved::<Sequence<u16>, 1>("VPadded<Sequence<u16>, 1>"),
                reserved::<u32, 2>("VPadded<u32, 2>"),
                reserved::<N, 3>("VPadded<N, 3>"),
                reserved::<Dynamic<u8, Bytes>, 5>("VPadded<Dynamic<u8, Bytes>, 5>"),
                reserved::<VPadded<Bytes, 2>, 3>("VPadded<VPadded<Bytes, 2>, 3>"),
                reserved::<Nullable<u8>, 1>("VPadded<Nullable<u8>, 1>"),
                reserved::<LimSeq<u8, 2>, 2>("VPadded<LimSeq<u8, 2>, 2>"),
                reserved::<crate::types::Tail, 64>("VPadded<Tail, 64>"),
                padded::<u8, 1>("Padded<u8, 1>"),
                padded::<u16, 0>("Padded<u16, 0>"),
                padded::<u32, 5>("Padded<u32, 5>"),
                padded::<bool, 2>("Padded<bool, 2>"),
                padded::<FixSeq<u8, 2>, 3>("Padded<FixSeq<u8, 2>, 3>"),
                padded::<u8, 300>("Padded<u8, 300>"),
                confined::<u8, VPadded<Bytes, 0>>("Dynamic<u8, VPadded<Bytes, 0>>"),
                confined::<u8, FixSeq<u8, 0>>("Dynamic<u8, FixSeq<u8, 0>>"),
                confined::<u8, LimSeq<u8, 0>>("Dynamic<u8, LimSeq<u8, 0>>"),
                reserved::<u8, 0>("VPadded<u8, 0>"),
                reserved::<N, 0>("VPadded<N, 0>"),
                reserved::<Dynamic<u8, Bytes>, 0>("VPadded<Dynamic<u8, Bytes>, 0>"),
                reserved::<(), 1>("VPadded<(), 1>"),
                reserved::<VPadded<u16, 0>, 2>("VPadded<VPadded<u16, 0>, 2>"),
                reserved::<Bytes, 256>("VPadded<Bytes, 256>"),
            ]);
            p("C09", "a prefixed, suffix-reserving or padded payload compared with decoding the payload alone, or a value of any type in an extent of its own; distinct by bytes", t)
        }
        "C18" => p("C18", "a tag or tagged value checked against the declared table; distinct by tag and payload", crate::tags::targets()),
        "C19" => {
            let recs: Vec<Target> = reg()
                .iter()
                .filter(|e| matches!(e.sch, Sch::Rec(_)))
                .map(|e| target(e.name, 1500, 40_000, move |cx| crate::tags::record(e, cx)))
                .collect();
            p("C19", "a record value or input compared field by field; distinct by bytes", recs)
        }
        "C21" => {
            let mut t = per_type(120, 4000, c21);
            t.push(target("padding bytes", 4000, 200_000, c21_padding));
            p("C21", "an input that decodes (leftovers judged), or a padded value with clean or dirty padding; distinct by bytes", t)
        }
        "C22" => p("C22", "a value and an input of a wire type compared with the feature-independent reference; distinct by value", per_type(60, 2500, c22)),
        "C24" => {
            let mut t = per_type(350, 12_000, c24);
            t.extend(crate::tags::undeclared());
            p("C24", "an input rejected by the specification whose reported quantities were compared, or a number without a variant and the error of its conversion; distinct by bytes", t)
        }
        "C34" => {
            let t = vec![target("nested values", 1200, 12000, crate::effort::trees), target("wide values", 200, 2000, crate::effort::wide), target("long values", 60, 400, crate::effort::scaling)];
            p("C34", "a value of at least ten levels or twenty parts, put through every entry point; distinct by encoding", t)
        }
        "C35" => {
            let t = vec![
                target("one after another", 400, 4000, crate::pure::in_order),
                target("from scratch", 30, 1500, crate::pure::from_scratch),
                target("over and over", 100, 3000, crate::pure::over_and_over),
                target("beside other threads", 200, 2000, crate::pure::in_parallel),
                target("inside a user's codec", 300, 3000, crate::pure::inside),
            ];
            p("C35", "a history of two to eight operations; distinct by their outcomes", t)
        }
        "C36" => {
            let t = vec![
                target("decoding", 1500, 60_000, crate::mishap::decoding),
                target("encoding", 800, 30_000, crate::mishap::encoding),
                target("copying, comparing, printing", 800, 30_000, crate::mishap::handling),
                target("filling and using up", 2500, 100_000, crate::mishap::filling),
                target("filling byte strings", 1000, 40_000, crate::mishap::strings),
                target("asking", 1200, 50_000, crate::mishap::asking),
                target("writers that refuse", 1200, 50_000, crate::mishap::printing),
            ];
            p("C36", "an operation of the library in the middle of which the user's code failed; distinct by operation, bytes and point of failure", t)
        }
        "C28" => p("C28", "an input supplied in every form; distinct by bytes", per_type(150, 6000, c28)),
        "C29" => {
            let mut t = per_type(250, 8000, c29);
            t.push(target("streams with windows", 5000, 200_000, c29_stream));
            p("C29", "an input decoded alone and in a longer stream; distinct by bytes", t)
        }
        "C30" => {
            let mut t = per_type(400, 15_000, c30);
            t.extend(tiny(
                |e, b| {
                    let mut cx = Cx::new(Src::preset(vec![]));
                    let o = e.ops.decode(Kind::Byte, b, &Around::default());
                    let _ = &mut cx;
                    if let (Ok(v), Ok(re), Ok((_, n, false))) = (o.res, e.ops.reencode(b), decode(&e.sch, b)) {
                        ensure!(re == b[..n], "{} decodes to {} which re-encodes to {}", hex(&b[..n]), short(&v), hex(&re));
                    }
                    Ok(())
                },
                60_000,
            ));
            p("C30", "an accepted input that was re-encoded; distinct by type and bytes", t)
        }
        _ => None,
    }
}
