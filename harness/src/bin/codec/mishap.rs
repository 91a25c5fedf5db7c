//! C36: failures in a user's own code leave everything else intact.
use std::cell::{Cell as Slot, RefCell};
use std::collections::HashSet;
use std::fmt::Write as _;
use tedium::conv::len::Estimable;
use tedium::conv::target::Target as Sink;
use tedium::conv::EncodeLength;
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::parse::sliceparser::SliceParser;
use tedium::parse::ParserExt;
use tedium::*;
use vcore::engine::*;
use vcore::ensure;

/// What a user's code was asked to do.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Act {
    Nothing,
    Decode,
    Encode,
    Estimate,
    Clone,
    Compare,
    Print,
    Push,
    Next,
    Judge,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Refuse,
    RefuseLate,
    Panic,
    PanicLate,
}
#[derive(Clone, Copy)]
struct Fuse {
    act: Act,
    how: How,
    left: u64,
}
thread_local! {
    static FUSE: Slot<Fuse> = const { Slot::new(Fuse { act: Act::Nothing, how: How::Panic, left: 0 }) };
    static COUNT: Slot<u64> = const { Slot::new(0) };
    static AT: Slot<usize> = const { Slot::new(0) };
    static NEXT: Slot<u64> = const { Slot::new(0) };
    static LIVE: RefCell<HashSet<u64>> = RefCell::default();
    static TWICE: Slot<bool> = const { Slot::new(false) };
}
const WORD: &str = "the user's code gives up";

/// Whether it fails this time; `late` for the second occasion in one call.
fn fails(act: Act, late: bool) -> bool {
    let mut f = FUSE.with(|f| f.get());
    if f.act != act || late != matches!(f.how, How::RefuseLate | How::PanicLate) {
        return false;
    }
    COUNT.with(|c| c.set(c.get() + 1));
    if f.left == 0 {
        // later calls succeed: what else goes on must cope by itself
        f.left = u64::MAX;
        FUSE.with(|x| x.set(f));
        return true;
    }
    f.left -= 1;
    FUSE.with(|x| x.set(f));
    false
}
fn refuses() -> bool {
    FUSE.with(|f| matches!(f.get().how, How::Refuse | How::RefuseLate))
}
fn at(act: Act, late: bool) {
    if fails(act, late) {
        panic!("{WORD}");
    }
}
/// Runs `f`, failing at the `n`th occasion of `act`; also tells how many there were.
fn with<T>(act: Act, how: How, left: u64, f: impl FnOnce() -> T) -> (Result<T, String>, u64) {
    COUNT.with(|c| c.set(0));
    FUSE.with(|x| x.set(Fuse { act, how, left }));
    let r = guard(f);
    FUSE.with(|x| x.set(Fuse { act: Act::Nothing, how, left: 0 }));
    (r, COUNT.with(|c| c.get()))
}
fn live() -> usize {
    LIVE.with(|l| l.borrow().len())
}
fn cut(s: &str) -> String {
    s.chars().take(300).collect()
}
fn kept(before: usize, what: &str) -> R {
    ensure!(!TWICE.with(|t| t.replace(false)), "{what}: an element was dropped twice");
    let now = live();
    ensure!(now == before, "{what}: {now} elements alive instead of {before}");
    Ok(())
}

/// An element that knows of itself, and fails when told to. One byte; its length is
/// known beforehand or not.
struct Cell<const KNOWN: bool> {
    id: u64,
    v: u8,
}
type C = Cell<false>;
type K = Cell<true>;
impl<const F: bool> Cell<F> {
    fn new(v: u8) -> Self {
        let id = NEXT.with(|n| n.replace(n.get() + 1));
        LIVE.with(|l| l.borrow_mut().insert(id));
        Cell { id, v }
    }
}
impl<const F: bool> Drop for Cell<F> {
    fn drop(&mut self) {
        if !LIVE.with(|l| l.borrow_mut().remove(&self.id)) {
            TWICE.with(|t| t.set(true));
        }
    }
}
impl<const F: bool> tedium::Encode for Cell<F> {
    fn write_to<U: Sink>(&self, buf: &mut U) -> usize {
        at(Act::Encode, false);
        let n = self.v.write_to(buf);
        at(Act::Encode, true);
        n
    }
}
#[derive(Debug)]
struct Failure(&'static str);
impl std::fmt::Display for Failure {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for Failure {}
impl<const F: bool> tedium::Decode for Cell<F> {
    fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
        let stop = |p: &mut P, late: bool| {
            if fails(Act::Decode, late) {
                AT.with(|a| a.set(p.offset()));
                if refuses() {
                    return Err(tedium::parse::error::ParseError::reify(Failure(WORD)));
                }
                panic!("{WORD}");
            }
            Ok(())
        };
        stop(p, false)?;
        let c = Cell::new(u8::parse(p)?);
        stop(p, true)?;
        Ok(c)
    }
}
impl<const F: bool> Estimable for Cell<F> {
    const KNOWN: Option<usize> = if F { Some(1) } else { None };
    fn unknown(&self) -> usize {
        at(Act::Estimate, false);
        1
    }
}
impl<const F: bool> Clone for Cell<F> {
    fn clone(&self) -> Self {
        at(Act::Clone, false);
        let c = Cell::new(self.v);
        at(Act::Clone, true);
        c
    }
}
impl<const F: bool> std::fmt::Debug for Cell<F> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        for late in [false, true] {
            if fails(Act::Print, late) {
                if refuses() {
                    return Err(std::fmt::Error);
                }
                panic!("{WORD}");
            }
            if !late {
                self.v.fmt(f)?;
            }
        }
        Ok(())
    }
}
impl<const F: bool> PartialEq for Cell<F> {
    fn eq(&self, o: &Self) -> bool {
        at(Act::Compare, false);
        self.v == o.v
    }
}
impl<const F: bool> PartialOrd for Cell<F> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        at(Act::Compare, false);
        self.v.partial_cmp(&o.v)
    }
}
impl<const F: bool> std::hash::Hash for Cell<F> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        at(Act::Compare, false);
        self.v.hash(h)
    }
}

// What is made of such elements.
trait Part: tedium::Encode + tedium::Decode + EncodeLength + Estimable + Clone + PartialEq + PartialOrd + std::hash::Hash + std::fmt::Debug + 'static {
    fn make(s: &mut Src) -> Self;
}
impl<const F: bool> Part for Cell<F> {
    fn make(s: &mut Src) -> Self {
        Cell::new(s.byte())
    }
}
fn some<T: Part>(s: &mut Src, min: usize, max: usize) -> Vec<T> {
    let n = s.range(min, max);
    (0..n).map(|_| T::make(s)).collect()
}
impl<T: Part> Part for Sequence<T> {
    fn make(s: &mut Src) -> Self {
        let most = *s.pick(&[6, 6, 6, 6, 40]);
        some(s, 0, most).into()
    }
}
impl<T: Part, const M: usize> Part for FixSeq<T, M> {
    fn make(s: &mut Src) -> Self {
        some(s, M, M).into_iter().collect()
    }
}
impl<T: Part, const M: usize> Part for LimSeq<T, M> {
    fn make(s: &mut Src) -> Self {
        some(s, 0, M).into_iter().collect()
    }
}
macro_rules! dynamic {
    ($($s:ty),+) => { $(impl<T: Part> Part for Dynamic<$s, T> {
        fn make(s: &mut Src) -> Self {
            Dynamic::new(T::make(s))
        }
    })+ };
}
dynamic!(u8, u16, u30);
impl<T: Part> Part for Option<T> {
    fn make(s: &mut Src) -> Self {
        s.chance(4, 5).then(|| T::make(s))
    }
}
impl<T: Part> Part for Nullable<T> {
    fn make(s: &mut Src) -> Self {
        Nullable::from(s.chance(4, 5).then(|| T::make(s)))
    }
}
impl<T: Part> Part for AutoBox<T> {
    fn make(s: &mut Src) -> Self {
        AutoBox::new(T::make(s))
    }
}
impl<T: Part, const M: usize> Part for VPadded<T, M> {
    fn make(s: &mut Src) -> Self {
        VPadded::new(T::make(s))
    }
}
impl<T: Part, const M: usize> Part for Padded<T, M> {
    fn make(s: &mut Src) -> Self {
        Padded::new(T::make(s))
    }
}
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Debug, Clone, PartialEq, PartialOrd, Hash)]
struct Record {
    a: C,
    q: Dynamic<u8, Sequence<C>>,
    l: Dynamic<u16, LimSeq<K, 4>>,
    b: AutoBox<C>,
    o: Option<K>,
    f: FixSeq<Dynamic<u8, C>, 3>,
    d: Dynamic<u30, Nullable<Dynamic<u8, C>>>,
    p: Padded<K, 2>,
    c: Choice,
    t: VPadded<Sequence<Choice>, 2>,
    e: u8,
    z: K,
}
data! { Choice, u8, choice, {
    1 => One (pub super::C),
    2 => Two { pub a: super::C, pub s: Dynamic<u8, Sequence<super::K>>, pub b: super::C },
} }
impl Part for Choice {
    fn make(s: &mut Src) -> Self {
        if s.coin() {
            Choice::One(choice::One(C::make(s)))
        } else {
            Choice::Two(choice::Two { a: C::make(s), s: Part::make(s), b: C::make(s) })
        }
    }
}
impl Part for Record {
    fn make(s: &mut Src) -> Self {
        Record {
            a: Part::make(s),
            q: Part::make(s),
            l: Part::make(s),
            b: Part::make(s),
            o: Part::make(s),
            f: Part::make(s),
            d: Part::make(s),
            p: Part::make(s),
            c: Part::make(s),
            t: Part::make(s),
            e: s.byte(),
            z: Part::make(s),
        }
    }
}
macro_rules! shapes {
    ($f:ident: $($t:ty),+ $(,)?) => { [$((stringify!($t), $f::<$t> as fn(&str, &mut Cx) -> R)),+] };
}
macro_rules! any_shape {
    ($name:ident, $f:ident) => {
        pub fn $name(cx: &mut Cx) -> R {
            let all = shapes!($f: C, Sequence<C>, Sequence<K>, Dynamic<u8, Sequence<C>>, Dynamic<u30, K>, FixSeq<C, 4>, FixSeq<K, 7>,
                LimSeq<C, 5>, LimSeq<K, 5>, Dynamic<u16, LimSeq<Option<C>, 3>>, Option<C>, Nullable<C>, Nullable<Dynamic<u16, Sequence<K>>>, AutoBox<C>, Padded<K, 3>,
                Sequence<FixSeq<Dynamic<u8, C>, 2>>, FixSeq<Dynamic<u8, Sequence<C>>, 2>, LimSeq<Choice, 3>, FixSeq<FixSeq<AutoBox<C>, 2>, 3>,
                Dynamic<u30, Dynamic<u30, Dynamic<u30, Sequence<C>>>>, VPadded<Sequence<C>, 0>, Choice, Record, Sequence<Dynamic<u16, Record>>);
            let (name, f) = all[cx.s.range(0, all.len() - 1)];
            let name = name.split_whitespace().collect::<Vec<_>>().join(" ");
            let before = live();
            TWICE.with(|t| t.set(false));
            let r = f(&name, cx);
            r?;
            kept(before, &format!("{name}, when all is over"))
        }
    };
}
any_shape!(decoding, decode_one);
any_shape!(encoding, encode_one);
any_shape!(handling, handle_one);

fn how(s: &mut Src, refusing: bool) -> How {
    *s.pick(if refusing { &[How::Refuse, How::RefuseLate, How::Panic, How::PanicLate] } else { &[How::Panic, How::PanicLate] })
}
fn told<T: std::fmt::Debug>(r: Result<T, String>, what: &str) -> R {
    match r {
        Ok(x) => Err(format!("{what}: goes on, with {}", cut(&format!("{x:?}")))),
        Err(m) => {
            ensure!(m.contains(WORD), "{what}: another panic: {m}");
            Ok(())
        }
    }
}

fn decode_one<T: Part>(name: &str, cx: &mut Cx) -> R {
    let v = T::make(&mut cx.s);
    let b = v.to_bytes();
    let how = how(&mut cx.s, true);
    let before = live();
    let (r, n) = with(Act::Decode, how, u64::MAX, || T::decode(&b[..]) == v);
    ensure!(r == Ok(true), "{name}: round trip: {r:?}");
    kept(before, "round trip")?;
    if n == 0 {
        cx.class("no element");
        return Ok(());
    }
    let k = cx.s.draw(n - 1);
    cx.note(|| format!("{name} from {}, {how:?} at element {k} of {n}", crate::props::hex(&b)));
    cx.class(if k == 0 { "first" } else if k + 1 == n { "last" } else { "midway" });
    cx.nontrivial(&(name, &b, k, how as u8));
    let refusing = matches!(how, How::Refuse | How::RefuseLate);
    let mut place = None;
    let short = |x: &T| cut(&format!("{x:?}"));
    macro_rules! by {
        ($kind:literal, $p:expr) => {{
            let mut p = $p;
            let (r, seen) = with(Act::Decode, how, k, || T::parse(&mut p));
            let failed_at = AT.with(|a| a.get());
            ensure!(seen == k + 1, "{}: {} elements were asked for after the failure", $kind, seen as i64 - k as i64 - 1);
            match (r, refusing) {
                (Ok(Err(e)), true) => {
                    ensure!(e.to_string().contains(WORD), "{}: the element's error became {e}", $kind);
                    let mut next: Option<&(dyn std::error::Error + 'static)> = Some(&e);
                    let mut found = format!("{e:?}").contains("Failure(");
                    while let Some(x) = next {
                        found |= x.downcast_ref::<Failure>().is_some();
                        next = x.source();
                    }
                    ensure!(found, "{}: the element's error is not to be found in {e:?}", $kind);
                }
                (Err(m), false) => ensure!(m.contains(WORD), "{}: another panic: {m}", $kind),
                (Ok(Ok(x)), _) => return Err(format!("{}: decodes to {} all the same", $kind, short(&x))),
                (Ok(Err(e)), _) => return Err(format!("{}: the panic became the error {e}", $kind)),
                (Err(m), _) => return Err(format!("{}: the error became the panic {m}", $kind)),
            }
            kept(before, concat!($kind, ": after the failure"))?;
            // a slice parser does not know where it is
            let blind = $kind == "SliceParser";
            let pos = *place.get_or_insert(failed_at);
            ensure!(blind || failed_at == pos, "{}: failed at {failed_at}, not at {pos}", $kind);
            ensure!(blind || p.offset() == pos, "{}: at {} instead of {pos} after the failure", $kind, p.offset());
            ensure!(pos + p.remainder() <= b.len(), "{}: {} bytes remain after {pos} of {}", $kind, p.remainder(), b.len());
            if p.remainder() > 0 {
                let x = p.consume_byte().map_err(|e| format!("{}: reading on: {e}", $kind))?;
                ensure!(x == b[pos], "{}: reading on at {pos} gives {x:#x}, not {:#x}", $kind, b[pos]);
                ensure!(blind || p.offset() == pos + 1, "{}: at {} after reading on at {pos}", $kind, p.offset());
            }
            let _ = guard(|| p.cleanup()).map_err(|m| format!("{}: cleanup: {m}", $kind))?;
        }};
    }
    by!("ByteParser", ByteParser::from_buffer(VecBuffer::from(&b[..])));
    by!("MemoParser", MemoParser::from_buffer(VecBuffer::from(&b[..])));
    by!("SliceParser", SliceParser::from_buffer(SliceBuffer::from(&b[..])));
    // the entry points
    let (r, _) = with(Act::Decode, how, k, || T::try_decode::<_, ByteParser>(&b[..]).map_err(|e| e.to_string()));
    match (r, refusing) {
        (Ok(Err(e)), true) => ensure!(e.contains(WORD), "try_decode: the element's error became {e}"),
        (Err(m), false) => ensure!(m.contains(WORD), "try_decode: another panic: {m}"),
        (r, _) => return Err(format!("try_decode gives {}", cut(&format!("{r:?}")))),
    }
    kept(before, "try_decode")?;
    told(with(Act::Decode, how, k, || T::decode(&b[..])).0, "decode")?;
    kept(before, "decode")?;
    ensure!(with(Act::Decode, how, k, || T::decode_memo(&b[..])).0.is_err(), "decode_memo goes on");
    kept(before, "decode_memo")?;
    // nothing of it stays behind
    ensure!(guard(|| T::decode(&b[..])).map_err(|m| format!("afterwards: {m}"))? == v, "decodes to something else afterwards");
    // fewer bytes than needed: again nothing may stay behind
    let cut = cx.s.range(0, b.len().max(1) - 1);
    let _ = guard(|| T::try_decode::<_, ByteParser>(&b[..cut]).is_ok());
    let _ = guard(|| T::try_decode::<_, MemoParser>(&b[..cut]).is_ok());
    kept(before, "input that ends early")
}

/// A user's target.
struct Frail(Vec<u8>);
impl Frail {
    fn put(&mut self, b: &[u8]) -> usize {
        at(Act::Push, false);
        self.0.extend_from_slice(b);
        at(Act::Push, true);
        b.len()
    }
}
impl Sink for Frail {
    fn anticipate(&mut self, extra: usize) {
        at(Act::Push, false);
        self.0.reserve(extra.min(1 << 16));
    }
    fn create() -> Self {
        Frail(vec![])
    }
    fn push_one(&mut self, b: u8) -> usize {
        self.put(&[b])
    }
    fn push_many<const M: usize>(&mut self, arr: [u8; M]) -> usize {
        self.put(&arr)
    }
    fn push_all(&mut self, buf: &[u8]) -> usize {
        self.put(buf)
    }
    fn resolve(&mut self) {
        at(Act::Push, false);
    }
}

fn encode_one<T: Part>(name: &str, cx: &mut Cx) -> R {
    let v = T::make(&mut cx.s);
    let full = v.to_bytes();
    let np = cx.s.range(0, 6);
    let pre = cx.s.bytes(np);
    let before = live();
    let mut tried = false;
    cx.note(|| format!("{name} {}", crate::props::hex(&full)));
    let same = |what: &str| -> R {
        kept(before, what)?;
        ensure!(guard(|| v.to_bytes()).map_err(|m| format!("{what}, encoding again: {m}"))? == full, "{what}: the value encodes to something else afterwards");
        Ok(())
    };
    // the held bytes are what was held and a part from the front of the encoding
    let prefix = |what: &str, got: &[u8]| -> R {
        ensure!(got.starts_with(&pre) && full.starts_with(&got[pre.len()..]), "{what}: holds {got:02x?} after the failure, instead of {pre:02x?} and a part of {full:02x?}");
        Ok(())
    };
    macro_rules! target {
        ($name:literal, $act:expr, $new:expr, |$t:ident| $held:expr) => {{
            let how = how(&mut cx.s, false);
            let mut $t = $new;
            $t.push_all(&pre);
            let (r, n) = with($act, how, u64::MAX, || v.write_to(&mut $t));
            ensure!(r == Ok(full.len()), "{}: writing: {r:?}", $name);
            if n > 0 {
                let k = cx.s.draw(n - 1);
                tried = true;
                let mut $t = $new;
                $t.push_all(&pre);
                let what = format!("{}, {how:?} at {k} of {n} ({:?})", $name, $act);
                told(with($act, how, k, || v.write_to(&mut $t)).0, &what)?;
                same(&what)?;
                let got: Vec<u8> = $held;
                prefix(&what, &got)?;
                // and it can be written to again
                let w = guard(|| v.write_to(&mut $t)).map_err(|m| format!("{what}, writing again: {m}"))?;
                ensure!(w == full.len(), "{what}, writing again: {w} bytes");
                let again: Vec<u8> = $held;
                ensure!(again == [&got[..], &full[..]].concat(), "{what}, writing again: holds {again:02x?}");
            }
        }};
    }
    target!("Vec<u8>", Act::Encode, Vec::<u8>::create(), |t| t.clone());
    target!("HexString", Act::Encode, HexString::create(), |t| t.as_bytes().to_vec());
    target!("StrictBuilder", Act::Encode, StrictBuilder::create(), |t| std::borrow::Borrow::<[u8]>::borrow(&t).to_vec());
    target!("MemoBuilder", Act::Encode, tedium::builder::memo::MemoBuilder::create(), |t| {
        let shown: String = guard(|| format!("{t} {t:?}")).map_err(|m| format!("MemoBuilder, printing: {m}"))?;
        ensure!(!shown.trim().is_empty(), "MemoBuilder shows nothing");
        t.clone().into_vec()
    });
    target!("a user's target, under a failing element", Act::Encode, Frail::create(), |t| t.0.clone());
    target!("a user's target", Act::Push, Frail::create(), |t| t.0.clone());
    // the entry points
    macro_rules! entry {
        ($($what:literal: $act:expr, $e:expr);+ $(;)?) => { $({
            let how = if $act == Act::Estimate { How::Panic } else { how(&mut cx.s, false) };
            let (r, n) = with($act, how, u64::MAX, || $e);
            r.map_err(|m| format!("{}: {m}", $what))?;
            if n > 0 {
                tried = true;
                let k = cx.s.draw(n - 1);
                told(with($act, how, k, || { $e; }).0, concat!($what, " with a failing element"))?;
                same($what)?;
            }
        })+ };
    }
    entry! {
        "to_bytes": Act::Encode, v.to_bytes().len();
        "to_bytes_full": Act::Encode, v.to_bytes_full().len();
        "encode::<HexString>": Act::Encode, v.encode::<HexString>().as_bytes().len();
        "encode::<StrictBuilder>": Act::Encode, v.encode::<StrictBuilder>().into_vec().len();
        "encode::<MemoBuilder>": Act::Encode, v.encode::<tedium::builder::memo::MemoBuilder>().into_vec().len();
        "write_to a sink": Act::Encode, v.write_to(&mut std::io::sink());
        "enc_len": Act::Encode, v.enc_len();
        "enc_len, estimating": Act::Estimate, v.enc_len();
        "estimate": Act::Estimate, v.estimate();
        "to_bytes_full, estimating": Act::Estimate, v.to_bytes_full().len();
        "to_bytes, estimating": Act::Estimate, v.to_bytes().len();
    }
    {
        let how = how(&mut cx.s, false);
        let mut into = pre.clone();
        let (_, n) = with(Act::Encode, how, u64::MAX, || v.write_to_vec(&mut vec![]));
        if n > 0 {
            let k = cx.s.draw(n - 1);
            told(with(Act::Encode, how, k, || v.write_to_vec(&mut into)).0, "write_to_vec")?;
            prefix("write_to_vec", &into)?;
            same("write_to_vec")?;
        }
    }
    cx.class(if tried { "failed somewhere" } else { "no element" });
    if tried {
        cx.nontrivial(&(name, &full, &pre));
    }
    Ok(())
}

/// Copying, comparing and printing.
fn handle_one<T: Part>(name: &str, cx: &mut Cx) -> R {
    let v = T::make(&mut cx.s);
    let full = v.to_bytes();
    let mut twin = T::decode(&full[..]);
    let before = live();
    cx.note(|| format!("{name} {}", crate::props::hex(&full)));
    let intact = |what: &str, before: usize| -> R {
        kept(before, what)?;
        ensure!(guard(|| v.to_bytes()).map_err(|m| format!("{what}, encoding: {m}"))? == full, "{what}: the value encodes to something else afterwards");
        Ok(())
    };
    let mut tried = false;
    macro_rules! entry {
        ($($what:literal: $act:expr, $late:expr, $e:expr);+ $(;)?) => { $({
            let how = if $late { how(&mut cx.s, false) } else { How::Panic };
            let (r, n) = with($act, how, u64::MAX, || { $e; });
            r.map_err(|m| format!("{}: {m}", $what))?;
            intact($what, before)?;
            if n > 0 {
                tried = true;
                let k = cx.s.draw(n - 1);
                told(with($act, how, k, || { $e; }).0, concat!($what, " with a failing element"))?;
                intact($what, before)?;
            }
        })+ };
    }
    entry! {
        "clone": Act::Clone, true, v.clone();
        "==": Act::Compare, false, v == twin;
        "partial_cmp": Act::Compare, false, v.partial_cmp(&twin);
        "hash": Act::Compare, false, hash_of(&v);
        "Debug": Act::Print, true, format!("{v:?}");
        "Debug, pretty": Act::Print, true, format!("{v:#?}");
    }
    // an element that cannot be printed
    let h = *cx.s.pick(&[How::Refuse, How::RefuseLate]);
    let (_, n) = with(Act::Print, h, u64::MAX, || format!("{v:?}"));
    if n > 0 {
        let k = cx.s.draw(n - 1);
        let (r, _) = with(Act::Print, h, k, || {
            let mut t = String::new();
            write!(t, "{v:?}").is_ok()
        });
        ensure!(r == Ok(false), "printing with an element that refuses: {r:?}");
    }
    // what is overwritten may be lost, but only once
    let h = how(&mut cx.s, false);
    let (r, n) = with(Act::Clone, h, u64::MAX, || twin.clone_from(&v));
    r.map_err(|m| format!("clone_from: {m}"))?;
    intact("clone_from", before)?;
    if n > 0 {
        let k = cx.s.draw(n - 1);
        told(with(Act::Clone, h, k, || twin.clone_from(&v)).0, "clone_from with a failing element")?;
        drop(twin);
        ensure!(!TWICE.with(|t| t.replace(false)), "clone_from: an element was dropped twice");
        drop(v);
        return done(cx, name, &full, true);
    }
    done(cx, name, &full, tried)
}
fn done(cx: &mut Cx, name: &str, full: &[u8], tried: bool) -> R {
    cx.class(if tried { "failed somewhere" } else { "no element" });
    if tried {
        cx.nontrivial(&(name, full));
    }
    Ok(())
}

/// An iterator that stops half way.
struct Halting(std::vec::IntoIter<C>);
impl Iterator for Halting {
    type Item = C;
    fn next(&mut self) -> Option<C> {
        at(Act::Next, false);
        let x = self.0.next();
        at(Act::Next, true);
        x
    }
}

/// The byte strings, filled from iterators that stop half way.
pub fn strings(cx: &mut Cx) -> R {
    let s = &mut cx.s;
    let (h, m) = (s.range(0, 20), s.range(0, 40));
    let (held, given) = (s.bytes(h), s.bytes(m));
    let (op, how, k) = (s.draw(4), how(s, false), s.draw(m as u64));
    cx.note(|| format!("operation {op} on {held:02x?}, given {given:02x?}, {how:?} ({k})"));
    fn asked(x: &u8) -> &u8 {
        at(Act::Next, false);
        at(Act::Next, true);
        x
    }
    let src = || given.iter().chain(std::iter::once(&0)).map(asked);
    let (r, now, more) = if op < 2 {
        let mut q = HexString::from(held.clone());
        let r = with(Act::Next, how, k, || if op == 0 { q.extend(src().copied()) } else { q.extend(src()) }).0;
        let now = q.as_bytes().to_vec();
        q.extend([0xee]);
        ensure!(q.to_string().len() == 2 * q.len(), "text of {} bytes", q.len());
        (r, now, q.into_inner())
    } else if op == 2 {
        let mut q = Bytes::from(held.clone());
        let r = with(Act::Next, how, k, || q.extend(src().copied())).0;
        let now = Vec::<u8>::from(q.clone());
        q.extend([0xee]);
        (r, now, Vec::<u8>::from(q))
    } else {
        let r = if op == 3 {
            with(Act::Next, how, k, || drop(src().copied().collect::<Bytes>())).0
        } else if k % 2 == 0 {
            with(Act::Next, how, k, || drop(src().copied().collect::<HexString>())).0
        } else {
            with(Act::Next, how, k, || drop(src().collect::<HexString>())).0
        };
        (r, held.clone(), [&held[..], &[0xee]].concat())
    };
    told(r, "a failing iterator")?;
    ensure!(now.starts_with(&held) && given.starts_with(&now[h..]), "holds {now:02x?} after the failure");
    ensure!(more == [&now[..], &[0xee]].concat(), "holds {more:02x?} after one more");
    if k > 0 {
        cx.nontrivial(&(&held, &given, op, how as u8, k));
    }
    Ok(())
}

/// Sequences filled from such iterators, copied from such elements, used up in part.
pub fn filling(cx: &mut Cx) -> R {
    let before = live();
    TWICE.with(|t| t.set(false));
    filling_one(cx)?;
    kept(before, "when all is over")
}
fn filling_one(cx: &mut Cx) -> R {
    const N: usize = 6; // as below
    let s = &mut cx.s;
    let (h, m) = (s.range(0, N), s.range(0, N + 2));
    let (held, given) = (s.bytes(h), s.bytes(m));
    let which = s.range(0, 2);
    let op = s.range(0, 6);
    let how = how(s, false);
    let draw = s.draw(63);
    let (front, back) = (s.range(0, 4), s.range(0, 4));
    cx.note(|| format!("operation {op} on sequence {which} of {held:02x?}, given {given:02x?}, {how:?} ({draw})"));
    let cells = |b: &[u8]| b.iter().map(|x| C::new(*x)).collect::<Vec<_>>();
    let bytes = |c: &[C]| c.iter().map(|x| x.v).collect::<Vec<_>>();
    let base = live();
    let max = if which == 0 { usize::MAX } else { N };
    macro_rules! on {
        ($t:ty) => {{
            let mut q: $t = cells(&held).into_iter().collect();
            match op {
                0 | 1 => {
                    // the iterator fails after k elements
                    let k = draw % (m as u64 + 1);
                    let src = Halting(cells(&given).into_iter());
                    let over = h + m > max;
                    let (r, n) = if op == 0 { with(Act::Next, how, k, || q.extend(src)) } else { with(Act::Next, how, k, || drop(src.collect::<$t>())) };
                    if n <= k {
                        // it was not asked that often
                        let over = if op == 0 { over } else { m > max };
                        ensure!(over && r.is_err(), "the iterator was asked {n} times and {r:?}");
                    } else {
                        told(r, "a failing iterator")?;
                    }
                    let now = bytes(&q);
                    if op == 0 {
                        ensure!(now.starts_with(&held) && given.starts_with(&now[h..]), "holds {now:02x?} after the failure");
                    } else {
                        ensure!(now == held, "collecting changed another sequence");
                    }
                    kept(base + now.len(), "after the iterator's failure")?;
                    // and takes more, if there is room
                    if now.len() < max {
                        guard(|| q.extend([C::new(0xee)])).map_err(|e| format!("taking one more: {e}"))?;
                        ensure!(bytes(&q) == [&now[..], &[0xee]].concat(), "holds {:02x?} after one more", bytes(&q));
                    }
                }
                2 => {
                    // copying fails
                    let k = draw % (h as u64).max(1);
                    let (r, n) = with(Act::Clone, how, k, || q.clone());
                    ensure!((n > k) == (h > 0) && r.is_err() == (h > 0), "clone of {h}: {n} copied, {r:?}");
                    drop(r);
                    ensure!(bytes(&q) == held, "holds {:02x?} after a failed copy", bytes(&q));
                    kept(base + h, "a failed copy")?;
                }
                3 => {
                    // used up in part, from both ends
                    let mut i = q.into_iter();
                    for j in 0..front {
                        ensure!(i.next().map(|c| c.v) == held.get(j).copied(), "element {j} by into_iter");
                    }
                    for j in 0..back {
                        let left = h.saturating_sub(front);
                        let want = (j < left).then(|| held[h - 1 - j]);
                        ensure!(i.next_back().map(|c| c.v) == want, "element {j} from the end by into_iter");
                    }
                    kept(base + h.saturating_sub(front + back), "partly used up")?;
                    drop(i);
                    kept(base, "an iterator dropped early")?;
                }
                4 => {
                    let v: Vec<C> = q.into();
                    ensure!(bytes(&v) == held, "as a vector");
                    kept(base + h, "as a vector")?;
                }
                _ => {
                    // a panic while it is borrowed
                    let (r, _) = with(Act::Next, How::Panic, draw % (h as u64 + 1), || {
                        for x in q.iter_mut() {
                            at(Act::Next, false);
                            x.v = !x.v;
                        }
                        at(Act::Next, false);
                    });
                    told(r, "a loop that fails")?;
                    let now = bytes(&q);
                    ensure!(now.len() == h && now.iter().zip(&held).all(|(a, b)| *a == *b || *a == !*b), "holds {now:02x?} after a failed loop");
                    kept(base + h, "a failed loop")?;
                }
            }
        }};
    }
    macro_rules! bounded {
        ($t:ty) => {{
            match op {
                5 => {
                    // refused altogether
                    let r = <$t>::try_from(cells(&given));
                    ensure!(r.is_ok() == (m <= N), "from a vector of {m}");
                    kept(base + if m <= N { m } else { 0 }, "from a vector")?;
                    drop(r);
                }
                6 => {
                    // copies of a slice
                    let from = cells(&given);
                    let k = draw % (m as u64).max(1);
                    let (r, n) = with(Act::Clone, how, k, || <$t>::try_from(&from[..]));
                    if n > k {
                        told(r, "copying a slice with a failing element")?;
                    } else {
                        ensure!(n == 0 || m == 0 || m > N || r.is_err(), "{n} elements copied");
                        drop(r);
                    }
                    ensure!(bytes(&from) == given, "copying changed the slice");
                    kept(base + m, "copying a slice")?;
                }
                _ => on!($t),
            }
        }};
    }
    match which {
        0 => on!(Sequence<C>),
        1 => bounded!(FixSeq<C, 6>),
        _ => bounded!(LimSeq<C, 6>),
    }
    cx.nontrivial(&(op, which, &held, &given, draw, how as u8));
    cx.class(["extending", "collecting", "copying", "used up in part", "as a vector", "refused, or looping", "copying a slice, or looping"][op]);
    Ok(())
}

/// Questions a parser asks its user.
pub fn asking(cx: &mut Cx) -> R {
    let s = &mut cx.s;
    let n = s.range(1, 30);
    let b = s.bytes(n);
    let skip = s.range(0, n - 1);
    let window = s.coin().then(|| s.range(0, n - skip));
    let how = How::Panic;
    let op = s.range(0, 1);
    let pick = s.draw(31);
    let key = [s.byte(), s.byte()];
    cx.note(|| format!("operation {op} on {} from {skip}, window {window:?}, failing at {pick}", crate::props::hex(&b)));
    let end = window.map_or(n, |w| skip + w);
    macro_rules! by {
        ($kind:literal, $p:expr) => {{
            let mut p = $p;
            ParserExt::skip(&mut p, skip).map_err(|e| e.to_string())?;
            if let Some(w) = window {
                p.set_fit(w).map_err(|e| e.to_string())?;
            }
            let asked = std::cell::RefCell::new(vec![]);
            let (r, _) = if op == 0 {
                with(Act::Judge, how, pick, || {
                    let r = p.take_self_terminating(|x| {
                        asked.borrow_mut().push(x);
                        at(Act::Judge, false);
                        false
                    });
                    format!("{}", r.is_ok())
                })
            } else {
                // as many pairs as there are; the closure sees the value of the key
                let k: [u8; 2] = if end - skip >= 2 && pick % 2 == 0 { [b[skip], b[skip + 1]] } else { key };
                with(Act::Judge, how, 0, || {
                    let r = p.fast_kv_search::<[u8; 2], u8, _, 2, 1>(&k, |x| {
                        asked.borrow_mut().push(x[0]);
                        at(Act::Judge, false);
                        x[0]
                    });
                    format!("{}", r.is_ok())
                })
            };
            let asked = asked.into_inner();
            if let Err(m) = &r {
                ensure!(m.contains(WORD), "{}: another panic: {m}", $kind);
                cx.class("failed");
                cx.nontrivial(&(op, &b, skip, window, pick));
                if op == 0 {
                    ensure!(b[skip..].starts_with(&asked), "{}: the predicate saw {asked:02x?}", $kind);
                }
            }
            let blind = $kind == "SliceParser";
            ensure!(p.remainder() <= end - skip, "{}: {} bytes remain", $kind, p.remainder());
            let o = end - p.remainder();
            ensure!(blind || p.offset() == o, "{}: at {} with {} bytes left", $kind, p.offset(), p.remainder());
            ensure!(o >= skip && o <= end, "{}: at {o} after the failure, of {skip}..{end}", $kind);
            if r.is_err() && op == 0 {
                ensure!(o <= skip + asked.len(), "{}: at {o} after a failure at byte {}", $kind, asked.len());
            }
            if o < end {
                let x = p.consume_byte().map_err(|e| format!("{}: reading on: {e}", $kind))?;
                ensure!(x == b[o], "{}: reading on at {o} gives {x:#x}", $kind);
                ParserExt::skip(&mut p, end - o - 1).map_err(|e| format!("{}: reading on: {e}", $kind))?;
            }
            if window.is_some() {
                p.enforce_target().map_err(|e| format!("{}: closing the window: {e}", $kind))?;
                ensure!(p.remainder() == n - end, "{}: {} bytes remain after the window", $kind, p.remainder());
            }
            ensure!(blind || p.offset() == end, "{}: at {} instead of {end}", $kind, p.offset());
        }};
    }
    by!("ByteParser", ByteParser::from_buffer(VecBuffer::from(&b[..])));
    by!("MemoParser", MemoParser::from_buffer(VecBuffer::from(&b[..])));
    by!("SliceParser", SliceParser::from_buffer(SliceBuffer::from(&b[..])));
    Ok(())
}

/// Somewhere to print to, with little room.
struct Short(usize, String, bool);
impl std::fmt::Write for Short {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.2 || s.len() > self.0 {
            self.2 = true;
            return Err(std::fmt::Error);
        }
        self.0 -= s.len();
        self.1.push_str(s);
        Ok(())
    }
}
pub fn printing(cx: &mut Cx) -> R {
    let s = &mut cx.s;
    let n = s.range(0, 20);
    let b = s.bytes(n);
    let op = s.range(0, 9);
    let part = s.range(0, 1000);
    let mut memo = tedium::builder::memo::MemoBuilder::create();
    for c in b.chunks(3) {
        memo.push_all(c);
    }
    let hex = HexString::from_vec(b.clone());
    let rec = Record::make(s);
    fn err(b: &[u8]) -> Option<tedium::conv::error::DecodeError> {
        Record::try_decode::<_, MemoParser>(b).err()
    }
    let e = err(&b);
    let (left, lb) = {
        let mut p = MemoParser::from_buffer(VecBuffer::from(&b[..]));
        let _ = p.set_fit(n / 2);
        (p.cleanup(), memo.clone().finalize())
    };
    let odd = HexString::from_hex("12 4").err();
    let names = ["Record Debug", "Record pretty", "HexString", "HexString Debug", "MemoBuilder", "MemoBuilder Debug", "DecodeError", "DecodeError Debug", "leftovers", "others"];
    let put = |w: &mut dyn std::fmt::Write| match op {
        0 => write!(w, "{rec:?}"),
        1 => write!(w, "{rec:#?}"),
        2 => write!(w, "{hex}"),
        3 => write!(w, "{hex:?}"),
        4 => write!(w, "{memo}"),
        5 => write!(w, "{memo:?}"),
        6 => e.as_ref().map_or(Ok(()), |e| write!(w, "{e}")),
        7 => e.as_ref().map_or(Ok(()), |e| write!(w, "{e:?}")),
        8 => write!(w, "{left:?} {lb:?} {lb}"),
        _ => write!(w, "{odd:?} {} {:?}", odd.as_ref().unwrap(), Bytes::from(&b[..])),
    };
    cx.note(|| format!("{} of {} with room for {part} per mille", names[op], crate::props::hex(&b)));
    let mut full = String::new();
    ensure!(put(&mut full).is_ok(), "{}: cannot be printed", names[op]);
    let room = full.len() * part / 1000;
    let mut w = Short(room, String::new(), false);
    let r = guard(|| put(&mut w)).map_err(|m| format!("{}: with room for {room} of {}: {m}", names[op], full.len()))?;
    ensure!(r.is_ok() == (room >= full.len()), "{}: printing to a writer that refuses after {room} of {} bytes gives {r:?}", names[op], full.len());
    ensure!(full.starts_with(&w.1), "{}: prints {:?} to a writer that refuses", names[op], w.1);
    cx.class(names[op]);
    if room < full.len() {
        cx.nontrivial(&(op, &b, part));
    }
    Ok(())
}
