//! C34: how often the parts of a value are visited while the whole is encoded,
//! measured, printed and decoded.
use std::cell::Cell;
use tedium::conv::len::Estimable;
use tedium::conv::target::Target as Sink;
use tedium::conv::EncodeLength;
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::parse::sliceparser::SliceParser;
use tedium::*;
use vcore::engine::*;
use vcore::ensure;
use vcore::wire::{AnyParser, Kind};

thread_local! {
    static VISITS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    static PEAK: Cell<usize> = const { Cell::new(0) };
}
fn visit() {
    let n = VISITS.with(|v| {
        v.set(v.get() + 1);
        v.get()
    });
    if n > LIMIT.with(|l| l.get()) {
        // there may be no end to it
        LIMIT.with(|l| l.set(u64::MAX));
        panic!("too many visits");
    }
}

/// One byte that notices being looked at.
#[derive(Clone)]
pub struct Probe(u8);
impl Encode for Probe {
    fn write_to<U: Sink>(&self, buf: &mut U) -> usize {
        visit();
        self.0.write_to(buf)
    }
}
impl Decode for Probe {
    fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
        visit();
        Ok(Probe(u8::parse(p)?))
    }
}
impl Estimable for Probe {
    const KNOWN: Option<usize> = None;
    fn unknown(&self) -> usize {
        visit();
        1
    }
}
impl std::fmt::Debug for Probe {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        visit();
        self.0.fmt(f)
    }
}
impl PartialEq for Probe {
    fn eq(&self, o: &Self) -> bool {
        visit();
        self.0 == o.0
    }
}
impl PartialOrd for Probe {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        visit();
        self.0.partial_cmp(&o.0)
    }
}
impl std::hash::Hash for Probe {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        visit();
        self.0.hash(h)
    }
}

#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq, PartialOrd, Hash)]
pub struct Reserved {
    a: VPadded<AutoBox<Tree>, 2>,
    b: u16,
}
data! { Tree, u8, tree, {
    0 => Leaf (pub Probe),
    1 => Narrow (pub Dynamic<u8, AutoBox<Tree>>),
    2 => Wide (pub Dynamic<u16, AutoBox<Tree>>),
    3 => Many (pub Dynamic<u30, Sequence<Tree>>),
    4 => Maybe (pub Option<AutoBox<Tree>>),
    5 => Absent (pub Dynamic<u30, Nullable<AutoBox<Tree>>>),
    6 => Pair { pub l: AutoBox<Tree>, pub r: AutoBox<Tree> },
    7 => Lim (pub Dynamic<u16, LimSeq<AutoBox<Tree>, 3>>),
    8 => Fix (pub FixSeq<AutoBox<Tree>, 2>),
    9 => Tail (pub Dynamic<u30, Reserved>),
    10 => Twice (pub Dynamic<u30, Dynamic<u30, AutoBox<Tree>>>),
} }

struct Made {
    tree: Tree,
    size: usize,
    leaves: u64,
    depth: u64,
}
fn leaf(s: &mut Src) -> Made {
    Made { tree: Tree::Leaf(tree::Leaf(Probe(s.byte()))), size: 2, leaves: 1, depth: 1 }
}
/// Something around `m`.
fn around(s: &mut Src, m: Made, kind: u64) -> Made {
    let Made { tree: t, size, leaves, depth } = m;
    let depth = depth + 1;
    let out = |tree, size, leaves| Made { tree, size, leaves, depth };
    match kind {
        1 if size <= 255 => out(Tree::Narrow(tree::Narrow(Dynamic::new(AutoBox::new(t)))), size + 2, leaves),
        2 if size <= 65535 => out(Tree::Wide(tree::Wide(Dynamic::new(AutoBox::new(t)))), size + 3, leaves),
        4 => out(Tree::Maybe(tree::Maybe(Some(AutoBox::new(t)))), size + 2, leaves),
        5 => out(Tree::Absent(tree::Absent(Dynamic::new(Nullable::from(AutoBox::new(t))))), size + 5, leaves),
        6 => {
            let k = leaf(s);
            let (l, r) = if s.coin() { (k.tree, t) } else { (t, k.tree) };
            out(Tree::Pair(tree::Pair { l: AutoBox::new(l), r: AutoBox::new(r) }), size + 3, leaves + 1)
        }
        7 if size < 60000 => out(Tree::Lim(tree::Lim(Dynamic::new([leaf(s).tree, t].into_iter().map(AutoBox::new).collect()))), size + 5, leaves + 1),
        8 => out(Tree::Fix(tree::Fix([AutoBox::new(t), AutoBox::new(leaf(s).tree)].into_iter().collect())), size + 3, leaves + 1),
        9 => out(Tree::Tail(tree::Tail(Dynamic::new(Reserved { a: VPadded::new(AutoBox::new(t)), b: 7 }))), size + 7, leaves),
        10 => out(Tree::Twice(tree::Twice(Dynamic::new(Dynamic::new(AutoBox::new(t))))), size + 9, leaves),
        _ => {
            let (n, at) = (s.range(0, 2), s.range(0, 2));
            let mut v: Vec<Tree> = (0..n).map(|_| leaf(s).tree).collect();
            v.insert(at.min(n), t);
            out(Tree::Many(tree::Many(Dynamic::new(Sequence::from_vec(v)))), size + 5 + 2 * n, leaves + n as u64)
        }
    }
}

fn counted<T>(what: &str, m: (u64, u64), f: impl FnOnce() -> T) -> Result<T, String> {
    let (leaves, depth) = m;
    // Each part, once per level and once more: twofold is twice too much from
    // eight levels on, while no polynomial effort of low degree is mistaken for it.
    let limit = leaves * (depth + 3) * (depth + 3) + 64;
    VISITS.with(|v| v.set(0));
    LIMIT.with(|l| l.set(limit));
    crate::alloc::reset();
    let r = guard(f);
    LIMIT.with(|l| l.set(u64::MAX));
    PEAK.with(|p| p.set(crate::alloc::peak()));
    r.map_err(|e| format!("{what}: {} visits to {leaves} leaves below {depth} levels ({e})", VISITS.with(|v| v.get())))
}

pub fn trees(cx: &mut Cx) -> R {
    let levels = match cx.s.weighted(&[2, 4, 2]) {
        0 => cx.s.range(0, 8),
        1 => cx.s.range(10, 40),
        _ => cx.s.range(40, 160),
    };
    // one kind throughout, or any
    let only = cx.s.coin().then(|| cx.s.range(1, 10) as u64);
    let mut m = leaf(&mut cx.s);
    for _ in 0..levels {
        let k = only.unwrap_or_else(|| cx.s.range(1, 10) as u64);
        m = around(&mut cx.s, m, k);
    }
    check(cx, m)
}
/// Many parts, side by side.
pub fn wide(cx: &mut Cx) -> R {
    let n = cx.s.range(0, 300);
    let mut v = vec![];
    let (mut size, mut leaves, mut depth) = (5, 0, 0);
    for _ in 0..n {
        let mut m = leaf(&mut cx.s);
        for _ in 0..cx.s.range(0, 2) {
            let k = cx.s.range(1, 10) as u64;
            m = around(&mut cx.s, m, k);
        }
        size += m.size;
        leaves += m.leaves;
        depth = depth.max(m.depth);
        v.push(m.tree);
    }
    check(cx, Made { tree: Tree::Many(tree::Many(Dynamic::new(Sequence::from_vec(v)))), size, leaves, depth: depth + 1 })
}

/// Memory in use at once during the last counted call, for a value of `size` bytes.
fn modest(what: &str, size: usize) -> R {
    let peak = PEAK.with(|p| p.get());
    ensure!(peak <= 64 * size + 8192, "{what}: {peak} bytes in use at once for {size} bytes of encoding");
    Ok(())
}

fn check(cx: &mut Cx, m: Made) -> R {
    let Made { tree: t, size, leaves, depth } = m;
    let m = (leaves, depth);
    cx.note(|| format!("{leaves} leaves, {depth} levels, {size} bytes"));
    cx.class(if depth >= 10 { "deep" } else if leaves >= 20 { "wide" } else { "small" });
    // encoding, by every entry point
    let b = counted("to_bytes", m, || t.to_bytes())?;
    modest("to_bytes", size)?;
    if depth >= 10 || leaves >= 20 {
        cx.nontrivial(&b);
    }
    ensure!(b.len() == size, "to_bytes gives {} bytes instead of {size}", b.len());
    let mut into = vec![];
    counted("write_to_vec", m, || t.write_to_vec(&mut into))?;
    ensure!(into == b, "write_to_vec");
    let mut into = vec![];
    ensure!(counted("write_to", m, || t.write_to(&mut into))? == size && into == b, "write_to");
    ensure!(counted("to_bytes_full", m, || t.to_bytes_full())? == b, "to_bytes_full");
    modest("to_bytes_full", size)?;
    ensure!(counted("encode::<Vec<u8>>", m, || t.encode::<Vec<u8>>())? == b, "encode::<Vec<u8>>");
    modest("encode::<Vec<u8>>", size)?;
    ensure!(counted("encode::<HexString>", m, || t.encode::<HexString>())?.into_inner() == b, "encode::<HexString>");
    ensure!(counted("encode::<StrictBuilder>", m, || t.encode::<StrictBuilder>())?.into_vec() == b, "encode::<StrictBuilder>");
    ensure!(counted("encode::<MemoBuilder>", m, || t.encode::<tedium::builder::memo::MemoBuilder>())?.into_vec() == b, "encode::<MemoBuilder>");
    // measuring
    ensure!(counted("write_to a sink", m, || t.write_to(&mut std::io::sink()))? == size, "write_to a sink");
    modest("write_to a sink", size)?;
    ensure!(counted("enc_len", m, || t.enc_len())? == size, "enc_len");
    modest("enc_len", size)?;
    ensure!(counted("estimate", m, || t.estimate())? == size, "estimate");
    modest("estimate", size)?;
    let d: Dynamic<u30, Tree> = Dynamic::new(t.clone());
    let lp: usize = counted("length_prefix", m, || d.length_prefix())?.map_err(|e| e.to_string())?.into();
    ensure!(lp == size, "length_prefix");
    // printing
    counted("Debug", m, || format!("{t:?}").len())?;
    counted("Debug, pretty", m, || format!("{t:#?}").len())?;
    // comparing
    let u = counted("clone", m, || t.clone())?;
    ensure!(counted("==", m, || t == u)?, "a clone differs");
    ensure!(counted("partial_cmp", m, || t.partial_cmp(&u))? == Some(std::cmp::Ordering::Equal), "a clone is not equal");
    counted("hash", m, || hash_of(&t))?;
    // decoding, by every kind of parser
    let same = |how: &str, x: Result<Tree, String>| -> R {
        let x = x.map_err(|e| format!("{how}: {e}"))?;
        ensure!(x.to_bytes() == b, "{how}: decodes to something else");
        Ok(())
    };
    same("ByteParser", counted("ByteParser", m, || Tree::parse(&mut ByteParser::from_buffer(VecBuffer::from(&b[..]))).map_err(|e| e.to_string()))?)?;
    same("MemoParser", counted("MemoParser", m, || Tree::parse(&mut MemoParser::from_buffer(VecBuffer::from(&b[..]))).map_err(|e| e.to_string()))?)?;
    same("SliceParser", counted("SliceParser", m, || Tree::parse(&mut SliceParser::from_buffer(SliceBuffer::from(&b[..]))).map_err(|e| e.to_string()))?)?;
    // input that ends early is refused after no more work
    let cut = cx.s.range(0, size.saturating_sub(1));
    let r = counted("ByteParser on cut input", m, || Tree::parse(&mut ByteParser::from_buffer(VecBuffer::from(&b[..cut]))).is_ok())?;
    ensure!(!r, "input cut to {cut} bytes of {size} is accepted");
    Ok(())
}

// Long flat things: how the time grows with the length.

/// Processor time of this thread, in nanoseconds.
fn cpu() -> u64 {
    #[repr(C)]
    struct Ts {
        s: i64,
        n: i64,
    }
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts { s: 0, n: 0 };
    let r = unsafe { clock_gettime(3, &mut t) };
    assert!(r == 0, "no processor clock");
    t.s as u64 * 1_000_000_000 + t.n as u64
}
/// Prepares something of length `n` to do.
type Prepare = Box<dyn Fn(usize) -> Box<dyn FnOnce()>>;

fn long_value<T>(s: &mut Src, what: &str, make: impl Fn(usize) -> T + 'static + Copy) -> (String, Prepare)
where
    T: Encode + Decode + EncodeLength + Estimable + Clone + PartialEq + std::fmt::Debug + 'static,
{
    let k = s.range(0, 14);
    macro_rules! ops {
        ($($n:literal $name:literal |$v:ident, $b:ident| $e:expr;)+) => {
            match k {
                $($n => (format!("{} of {what}", $name), Box::new(move |n| {
                    let $v = make(n);
                    let $b = $v.to_bytes();
                    Box::new(move || {
                        let _ = &$b;
                        std::hint::black_box($e);
                    }) as Box<dyn FnOnce()>
                }) as Prepare),)+
                _ => unreachable!(),
            }
        };
    }
    ops! {
        0 "to_bytes" |v, b| v.to_bytes();
        1 "to_bytes_full" |v, b| v.to_bytes_full();
        2 "enc_len" |v, b| v.enc_len();
        3 "estimate" |v, b| v.estimate();
        4 "write_to a sink" |v, b| v.write_to(&mut std::io::sink());
        5 "encode::<HexString>" |v, b| v.encode::<HexString>();
        6 "encode::<StrictBuilder>" |v, b| v.encode::<StrictBuilder>();
        7 "encode::<MemoBuilder>" |v, b| v.encode::<tedium::builder::memo::MemoBuilder>();
        8 "Debug" |v, b| format!("{v:?}");
        9 "clone and ==" |v, b| v.clone() == v;
        10 "ByteParser decoding" |v, b| T::parse(&mut ByteParser::from_buffer(VecBuffer::from(&b[..]))).is_ok();
        11 "MemoParser decoding" |v, b| T::parse(&mut MemoParser::from_buffer(VecBuffer::from(&b[..]))).is_ok();
        12 "SliceParser decoding" |v, b| T::parse(&mut SliceParser::from_buffer(SliceBuffer::from(&b[..]))).is_ok();
        13 "decode" |v, b| T::decode(&b[..]);
        14 "encoding with a prefix" |v, b| Dynamic::<u30, T>::new(v).to_bytes();
    }
}
fn long_thing(s: &mut Src) -> (String, Prepare) {
    let bytes = |n: usize| (0..n).map(|i| (i * 7 + 3) as u8).collect::<Vec<u8>>();
    let kind = s.range(0, 4);
    if kind < 3 {
        return match s.range(0, 9) {
            0 => long_value(s, "u8s", |n| Sequence::<u8>::from((0..n).map(|i| i as u8).collect::<Vec<_>>())),
            1 => long_value(s, "u16s", |n| Sequence::<u16>::from((0..n).map(|i| i as u16).collect::<Vec<_>>())),
            2 => long_value(s, "options", |n| Sequence::<Option<u8>>::from((0..n).map(|i| (i % 3 != 0).then_some(i as u8)).collect::<Vec<_>>())),
            3 => long_value(s, "naturals", |n| Sequence::<N>::from((0..n).map(|i| N::from(num_bigint::BigUint::from(i))).collect::<Vec<_>>())),
            4 => long_value(s, "prefixed bytes", |n| Sequence::<Dynamic<u8, Bytes>>::from((0..n / 2).map(|i| Dynamic::new(Bytes::from(vec![1; i % 3]))).collect::<Vec<_>>())),
            5 => long_value(s, "limited u16s", |n| (0..n).map(|i| i as u16).collect::<LimSeq<u16, 200_000>>()),
            6 => long_value(s, "bytes", |n| Bytes::from(vec![5; n])),
            7 => long_value(s, "text", |n| "a".repeat(n)),
            8 => long_value(s, "trees", |n| Sequence::<Tree>::from((0..n / 2).map(|i| Tree::Leaf(tree::Leaf(Probe(i as u8)))).collect::<Vec<_>>())),
            _ => long_value(s, "fixed pairs", |n| Sequence::<FixSeq<i8, 2>>::from((0..n / 2).map(|i| FixSeq::try_from(vec![i as i8, 1]).unwrap()).collect::<Vec<_>>())),
        };
    }
    // what is done again and again over a long input
    let kind = *s.pick(&[Kind::Byte, Kind::Memo, Kind::Slice]);
    macro_rules! ops {
        ($($n:literal $name:literal |$a:ident, $len:ident| $e:expr;)+) => {
            match s.range(0, 16) {
                $($n => (format!(concat!($name, " ({:?})"), kind), Box::new(move |$len: usize| {
                    let $a = bytes($len);
                    Box::new(move || {
                        std::hint::black_box($e);
                    }) as Box<dyn FnOnce()>
                }) as Prepare),)+
                _ => unreachable!(),
            }
        };
    }
    ops! {
        0 "hex text of bytes" |b, n| format!("{}", HexString::from_vec(b));
        1 "bytes of hex text" |b, n| HexString::from_hex("5a".repeat(b.len())).is_ok();
        2 "comparison with hex text" |b, n| HexString::from_vec(vec![0x5a; b.len()]).eq_hex(&"5a".repeat(b.len()));
        3 "single bytes" |b, n| { let mut p = AnyParser::new(kind, &b, u64::MAX); while p.consume_byte().is_ok() && p.remainder() > 0 {} };
        4 "slices" |b, n| { let mut p = AnyParser::new(kind, &b, u64::MAX); while p.remainder() > 0 { let _ = p.consume(1).map(|x| x.len()); } };
        5 "copies" |b, n| { let mut p = AnyParser::new(kind, &b, u64::MAX); while p.remainder() > 0 { let _ = p.take_dynamic(1); } };
        6 "skips" |b, n| { let mut p = AnyParser::new(kind, &b, u64::MAX); while p.remainder() > 0 { let _ = tedium::parse::ParserExt::skip(&mut p, 1); } };
        7 "windows in turn" |b, n| { let mut p = AnyParser::new(kind, &b, u64::MAX); while p.remainder() > 0 { let _ = p.set_fit(1); let _ = p.consume_byte(); let _ = p.enforce_target(); } };
        8 "windows in each other" |b, n| { let mut p = AnyParser::new(kind, &b, u64::MAX); for i in 0..b.len() { let _ = p.set_fit(b.len() - i); } let _ = p.cleanup().is_ok(); };
        9 "leftovers" |b, n| { let p = AnyParser::new(kind, &b, u64::MAX); let _ = p.cleanup().is_ok(); };
        10 "bytes one by one" |b, n| { let mut m = tedium::builder::memo::MemoBuilder::create(); for x in b { m.push_one(x); } m };
        11 "pieces" |b, n| { let mut m = tedium::builder::memo::MemoBuilder::create(); for x in b.chunks(2) { m.push_all(x); m.resolve(); } m.into_vec() };
        12 "pieces, printed" |b, n| { let mut m = tedium::builder::memo::MemoBuilder::create(); for x in b.chunks(2) { m.push_all(x); m.resolve(); } format!("{m} {m:?} {}", m.clone().finalize()) };
        13 "bytes one by one, strictly" |b, n| { let mut m = StrictBuilder::create(); for x in b { m.push_one(x); } m.into_vec() };
        14 "hex bytes one by one" |b, n| { let mut m = HexString::create(); for x in b { m.push_one(x); } m };
        15 "a long number" |b, n| { let z = vec![0x81u8; n / 64 + 1]; let _ = N::try_decode::<_, ByteParser>(&z[..]).is_ok(); };
        16 "pairs looked up" |b, n| { let mut p = AnyParser::new(kind, &b, u64::MAX); tedium::parse::ParserExt::fast_kv_search::<[u8; 2], u8, _, 2, 1>(&mut p, &[9, 9], |x| x[0]).is_ok() };
    }
}
/// Sixteen times as much takes nowhere near sixteen times sixteen times as long.
pub fn scaling(cx: &mut Cx) -> R {
    let (name, prepare) = long_thing(&mut cx.s);
    cx.note(|| name.clone());
    cx.class("long");
    cx.nontrivial(&name);
    let time = |n: usize| {
        let f = prepare(n);
        let t = cpu();
        f();
        cpu() - t
    };
    // long enough to be measured, and no longer
    let base = [512, 2048, 8192].into_iter().find(|n| *n == 8192 || time(*n) >= 1_000_000).unwrap();
    let mut seen = (0, 0);
    // the clock may be disturbed once, not every time
    for _ in 0..4 {
        let short = (0..3).map(|_| time(base)).min().unwrap().max(1_000_000);
        let long = time(16 * base);
        if long < 64 * short {
            return Ok(());
        }
        seen = (short, long);
    }
    Err(format!("{name}: {} us for a length of {base}, {} us for sixteen times the length", seen.0 / 1000, seen.1 / 1000))
}
