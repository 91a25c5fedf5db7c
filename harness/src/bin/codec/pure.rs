//! C35: what an operation gives depends on its arguments alone.
use crate::props::reg;
use std::cell::RefCell;
use std::sync::{Arc, Barrier};
use tedium::conv::len::Estimable;
use tedium::conv::target::Target as Sink;
use tedium::conv::EncodeLength;
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::parse::sliceparser::SliceParser;
use tedium::parse::ParserExt;
use tedium::*;
use vcore::engine::*;
use vcore::ensure;
use vcore::model::*;
use vcore::wire::*;

/// Something to do whose outcome can be written down.
#[derive(Clone)]
enum Step {
    Decode(&'static Entry, Kind, Vec<u8>),
    Whole(&'static Entry, Kind, Vec<u8>),
    Encode(&'static Entry, Val),
    Append(&'static Entry, Val, Vec<u8>),
    Refused(usize),
    Hex(String, Vec<u8>),
    Walk(Kind, Vec<u8>, Vec<(u8, usize)>),
    Build(Vec<(u8, Vec<u8>)>),
    User(Vec<u8>),
}
use Step::*;

fn step(s: &mut Src) -> Step {
    let e = s.pick(reg());
    match s.weighted(&[5, 2, 5, 2, 2, 2, 4, 2, 2]) {
        0 => Decode(e, *s.pick(&KINDS), gen_input(s, &e.sch).0),
        1 => Whole(e, *s.pick(&KINDS), gen_input(s, &e.sch).0),
        2 => Encode(e, gen_val(s, &e.sch, 60)),
        3 => {
            let n = s.range(0, 5);
            Append(e, gen_val(s, &e.sch, 40), s.bytes(n))
        }
        4 => Refused(s.range(0, 4)),
        5 => {
            let n = s.range(0, 9);
            let b = s.bytes(n);
            let mut t: String = b.iter().map(|x| if s.coin() { format!("{x:02x}") } else { format!("{x:02X}") }).collect();
            if s.chance(1, 3) {
                let k = s.range(0, t.len());
                t.insert(k, *s.pick(&['0', 'g', '+', 'é', ' ']));
            }
            Hex(t, b)
        }
        6 => {
            let n = s.range(0, 40);
            let b = s.bytes(n);
            let m = s.range(1, 14);
            Walk(*s.pick(&KINDS), b, (0..m).map(|_| (s.draw(9) as u8, s.range(0, 12))).collect())
        }
        7 => {
            let m = s.range(0, 8);
            Build(
                (0..m)
                    .map(|_| {
                        let n = s.range(0, 5);
                        (s.draw(5) as u8, s.bytes(n))
                    })
                    .collect(),
            )
        }
        _ => {
            let n = s.range(0, 6);
            User(s.bytes(n))
        }
    }
}

impl Step {
    fn name(&self) -> String {
        match self {
            Decode(e, k, b) => format!("{k:?} decoding of {} from {}", e.name, crate::props::hex(b)),
            Whole(e, k, b) => format!("{k:?} try_decode of {} from {}", e.name, crate::props::hex(b)),
            Encode(e, v) => format!("encoding {} {}", e.name, crate::props::short(v)),
            Append(e, v, _) => format!("appending {} {}", e.name, crate::props::short(v)),
            Refused(n) => format!("refused encoding {n}"),
            Hex(t, _) => format!("conversion of hex {t:?}"),
            Walk(k, b, o) => format!("{k:?} walk of {} steps over {}", o.len(), crate::props::hex(b)),
            Build(o) => format!("building in {} steps", o.len()),
            User(b) => format!("a user's codec over {}", crate::props::hex(b)),
        }
    }
    /// Does it, and writes down what comes of it.
    fn outcome(&self) -> String {
        guard(|| match self {
            Decode(e, k, b) => {
                let o = e.ops.decode(*k, b, &Around::default());
                format!("{:?}, then {:02x?}; again {:?}", o.res, o.rest, e.ops.reencode(b))
            }
            Whole(e, k, b) => format!("{:?}", e.ops.try_decode(*k, b)),
            Encode(e, v) => format!("{:02x?} {:?} {} {}", e.ops.encodings(v), e.ops.lengths(v), e.ops.debug(v), e.ops.memo_display(v)),
            Append(e, v, pre) => format!("{:02x?}", e.ops.append_to_all(pre, v)),
            Refused(n) => match n {
                0 => format!("{:?}", Dynamic::<u8, Bytes>::new(Bytes::from(vec![1; 256])).to_bytes().len()),
                1 => format!("{:?}", FixSeq::<u16, 3>::try_from(vec![1, 2]).map(|q| q.to_bytes())),
                2 => format!("{:?}", RangedInt::<u8, 3, 9>::from_underlying(200).to_bytes()),
                3 => format!("{:?}", <RangedF64!(0.0, 1.0)>::try_from(7.5).map(|x| x.to_bytes())),
                _ => format!("{:?}", u64::decode(&[1u8, 2, 3][..])),
            },
            Hex(t, b) => {
                let h = HexString::from_hex(t);
                let r = match &h {
                    Ok(h) => format!("{h} {h:?} {} {:?}", h.eq_hex(t), h.as_bytes()),
                    Err(e) => format!("{e} {e:?}"),
                };
                let g = HexString::from_vec(b.clone());
                format!("{r} {g} {}", g.eq_hex(t))
            }
            Walk(k, b, ops) => {
                let mut p = AnyParser::new(*k, b, 1 << 20);
                let mut log = String::new();
                for (op, n) in ops {
                    let r = match op {
                        0 => format!("{:?}", p.consume_byte()),
                        1 => format!("{:?}", p.consume(*n).map(|x| x.to_vec())),
                        2 => format!("{:?}", p.set_fit(*n)),
                        3 => format!("{:?}", p.test_target()),
                        4 => format!("{:?}", p.enforce_target()),
                        5 => format!("{:?}", ParserExt::skip(&mut p, *n)),
                        6 => format!("{:?}", p.take_dynamic(*n)),
                        7 => format!("{:?}", p.take_u32()),
                        8 => format!("{:?}", p.take_self_terminating(|x| x & 0x80 == 0)),
                        _ => format!("{:?}", N::parse(&mut p)),
                    };
                    log += &format!("{r} at {} of {}; ", p.offset(), p.remainder());
                }
                match p.cleanup() {
                    Ok(l) => log + &format!("left {l:?}"),
                    Err(e) => log + &format!("cleanup {e:?}"),
                }
            }
            Build(ops) => {
                let (mut m, mut t, mut v, mut h) = (builder::memo::MemoBuilder::create(), StrictBuilder::create(), Vec::<u8>::create(), HexString::create());
                let mut ns = 0;
                macro_rules! each { ($x:ident => $e:expr) => {{ ns += { let $x = &mut m; $e } + { let $x = &mut t; $e } + { let $x = &mut v; $e } + { let $x = &mut h; $e }; }}; }
                for (op, b) in ops {
                    match op {
                        0 => each!(x => x.push_all(b)),
                        1 => each!(x => x.push_one(b.len() as u8)),
                        2 => each!(x => x.push_many([7u8, 8, 9])),
                        3 => each!(x => x.resolve_zero()),
                        4 => each!(x => { x.anticipate(b.len()); 0 }),
                        _ => each!(x => Bytes::from(&b[..]).write_to(x)),
                    }
                }
                format!("{ns} {m} {m:?} {v:02x?} {h} {:02x?} {:02x?}", t.into_vec(), m.clone().finalize())
            }
            User(b) => user(b),
        })
        .unwrap_or_else(|m| format!("panic: {m}"))
    }
}

// A user's type whose codec makes codec calls of its own half way.
#[derive(Default)]
struct Plan {
    steps: Vec<Step>,
    /// at which of the occasions something is done
    when: Vec<usize>,
    occasion: usize,
    got: Vec<String>,
}
thread_local! {
    static ASIDE: RefCell<Plan> = RefCell::default();
}
fn aside() {
    let next = ASIDE.with(|a| {
        let mut a = a.borrow_mut();
        let k = a.occasion;
        a.occasion += 1;
        a.when.contains(&k).then(|| a.steps[a.got.len() % a.steps.len()].clone())
    });
    if let Some(s) = next {
        // a step within the step would never end
        let keep = ASIDE.with(|a| a.take());
        let got = s.outcome();
        ASIDE.with(|a| {
            *a.borrow_mut() = keep;
            a.borrow_mut().got.push(got);
        });
    }
}
#[derive(Clone)]
struct Busy(u8);
impl tedium::Encode for Busy {
    fn write_to<U: Sink>(&self, buf: &mut U) -> usize {
        aside();
        let n = self.0.write_to(buf);
        aside();
        n
    }
}
impl tedium::Decode for Busy {
    fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
        aside();
        let x = u8::parse(p)?;
        aside();
        Ok(Busy(x))
    }
}
impl Estimable for Busy {
    const KNOWN: Option<usize> = None;
    fn unknown(&self) -> usize {
        aside();
        1
    }
}
impl std::fmt::Debug for Busy {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        aside();
        self.0.fmt(f)
    }
}
impl PartialEq for Busy {
    fn eq(&self, o: &Self) -> bool {
        aside();
        self.0 == o.0
    }
}
impl PartialOrd for Busy {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        aside();
        self.0.partial_cmp(&o.0)
    }
}
impl std::hash::Hash for Busy {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        aside();
        self.0.hash(h)
    }
}
/// A user's target, busy as well.
struct BusyTarget(Vec<u8>);
impl Sink for BusyTarget {
    fn anticipate(&mut self, extra: usize) {
        aside();
        self.0.reserve(extra.min(1 << 16));
    }
    fn create() -> Self {
        BusyTarget(vec![])
    }
    fn push_one(&mut self, b: u8) -> usize {
        aside();
        self.0.push(b);
        1
    }
    fn push_many<const M: usize>(&mut self, arr: [u8; M]) -> usize {
        aside();
        self.0.extend(arr);
        M
    }
    fn push_all(&mut self, buf: &[u8]) -> usize {
        aside();
        self.0.extend(buf);
        aside();
        buf.len()
    }
    fn resolve(&mut self) {
        aside();
    }
}
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Debug, Clone, PartialEq, PartialOrd, Hash)]
struct Record {
    n: N,
    q: Dynamic<u8, Sequence<Busy>>,
    l: Dynamic<u30, LimSeq<Busy, 9>>,
    b: AutoBox<Busy>,
    o: Option<Busy>,
    d: Dynamic<u16, Nullable<Dynamic<u8, Busy>>>,
    f: FixSeq<Busy, 2>,
    c: Choice,
    t: VPadded<Sequence<Choice>, 1>,
    e: u8,
}
data! { Choice, u8, choice, {
    1 => One (pub super::Busy),
    2 => Two { pub a: super::Busy, pub s: Dynamic<u8, String>, pub b: super::Busy },
} }
/// Encodes, measures, prints and decodes a record with busy parts made of `b`.
fn user(b: &[u8]) -> String {
    let busy = || b.iter().map(|x| Busy(*x)).collect::<Vec<_>>();
    let x = b.first().copied().unwrap_or(3);
    let two = || Choice::Two(choice::Two { a: Busy(x), s: "text".to_string().into(), b: Busy(!x) });
    let r = Record {
        n: N::from(num_bigint::BigUint::from(x) << 70),
        q: Dynamic::new(busy().into()),
        l: Dynamic::new(busy().into_iter().collect()),
        b: AutoBox::new(Busy(x)),
        o: (x % 2 == 0).then_some(Busy(x)),
        d: Dynamic::new((x % 3 != 0).then_some(Dynamic::new(Busy(x))).into()),
        f: [Busy(1), Busy(x)].into_iter().collect(),
        c: if x % 5 == 0 { Choice::One(choice::One(Busy(x))) } else { two() },
        t: VPadded::new(b.iter().map(|y| if y % 2 == 0 { Choice::One(choice::One(Busy(*y))) } else { two() }).collect()),
        e: 99,
    };
    let bytes = r.to_bytes();
    let mut out = format!("{bytes:02x?} {} {} {r:?} {} {:?}", r.enc_len(), r.estimate(), r == r.clone(), r.partial_cmp(&r.clone()));
    let mut memo = builder::memo::MemoBuilder::create();
    r.write_to(&mut memo);
    out += &format!(" {} {memo} {:02x?}", hash_of(&r), r.to_bytes_full());
    let mut busy_target = BusyTarget::create();
    out += &format!(" {} {:02x?}", r.write_to(&mut busy_target), busy_target.0);
    let mut p = ByteParser::from_buffer(VecBuffer::from(&bytes[..]));
    let run = p.take_self_terminating(|x| {
        aside();
        x & 0x80 == 0
    });
    out += &format!(" {run:?} at {}", p.offset());
    let a = Record::parse(&mut ByteParser::from_buffer(VecBuffer::from(&bytes[..])));
    let c = Record::parse(&mut MemoParser::from_buffer(VecBuffer::from(&bytes[..])));
    let d = Record::parse(&mut SliceParser::from_buffer(SliceBuffer::from(&bytes[..])));
    let short = Record::parse(&mut ByteParser::from_buffer(VecBuffer::from(&bytes[..bytes.len() - 1 - b.len()])));
    out + &format!(" {a:?} {c:?} {d:?} {short:?}")
}

fn alone(s: &Step) -> String {
    let s = s.clone();
    std::thread::spawn(move || s.outcome()).join().unwrap_or_else(|_| "died".into())
}
fn differ(how: &str, s: &Step, a: &str, b: &str) -> R {
    if a == b {
        return Ok(());
    }
    let at = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |t: &str| String::from_utf8_lossy(&t.as_bytes()[at.saturating_sub(20).min(t.len())..(at + 120).min(t.len())]).into_owned();
    Err(format!("{}: {how} it gives ..{}.. but alone ..{}..", s.name(), cut(b), cut(a)))
}
fn draw_steps(s: &mut Src, most: usize) -> Vec<Step> {
    let n = s.range(2, most);
    (0..n).map(|_| step(s)).collect()
}
fn steps(cx: &mut Cx, most: usize) -> Vec<Step> {
    let v = draw_steps(&mut cx.s, most);
    cx.note(|| v.iter().map(|s| s.name()).collect::<Vec<_>>().join(" ; "));
    v
}

/// The same steps alone, one after another, and repeated in another order.
pub fn in_order(cx: &mut Cx) -> R {
    let v = steps(cx, 8);
    let want: Vec<String> = v.iter().map(alone).collect();
    cx.nontrivial(&want);
    let mut order: Vec<usize> = (0..v.len()).collect();
    for i in 0..v.len() {
        order.push(cx.s.range(0, v.len() - 1).max(i.min(1)));
    }
    let (w, o) = (v.clone(), order.clone());
    let got = std::thread::spawn(move || o.iter().map(|i| w[*i].outcome()).collect::<Vec<_>>()).join().map_err(|_| "died")?;
    for (i, g) in order.iter().zip(&got) {
        differ("after other operations", &v[*i], &want[*i], g)?;
    }
    Ok(())
}
/// One step many times over, which may well fail every time, and then another.
pub fn over_and_over(cx: &mut Cx) -> R {
    let (a, b) = (step(&mut cx.s), step(&mut cx.s));
    let n = if cx.s.chance(1, 3) { cx.s.range(2, 3000) } else { cx.s.range(2, 300) };
    cx.note(|| format!("{n} times {}, then {}", a.name(), b.name()));
    let (wa, wb) = (alone(&a), alone(&b));
    cx.nontrivial(&(n, &wa, &wb));
    // (a long outcome takes its time)
    let n = n.min(400_000 / (wa.len() + 100)).max(2);
    let (x, y, w) = (a.clone(), b.clone(), wa.clone());
    let (ga, gb) = std::thread::spawn(move || {
        let odd = (0..n).map(|_| x.outcome()).find(|g| *g != w);
        (odd, y.outcome())
    })
    .join()
    .map_err(|_| "died")?;
    if let Some(g) = ga {
        differ("done many times", &a, &wa, &g)?;
    }
    differ("after another was done many times", &b, &wb, &gb)
}
/// Most steps of a case whose steps are also made in processes of their own.
const FEW: usize = 3;
/// The child's side: draws the steps of a case again and prints what one of them gives.
pub fn step_child() -> ! {
    install_hook();
    let mut text = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut text).unwrap();
    let mut nums = text.split_whitespace().map(|x| x.parse::<u64>().unwrap());
    let i = nums.next().unwrap() as usize;
    let v = draw_steps(&mut Src::preset(nums.collect()), FEW);
    let out = alone(&v[i]);
    std::io::Write::write_all(&mut std::io::stdout(), out.as_bytes()).unwrap();
    std::process::exit(0)
}
/// The same steps, each as the first of a new process.
pub fn from_scratch(cx: &mut Cx) -> R {
    use std::process::{Command, Stdio};
    let v = steps(cx, FEW);
    let choices = cx.s.log.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" ");
    let kids: Vec<_> = (0..v.len())
        .map(|_| {
            Command::new(std::env::current_exe().unwrap()).arg("--step").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap()
        })
        .collect();
    let mut want = vec![];
    for (i, mut k) in kids.into_iter().enumerate() {
        // (a child that ends early shows in what it printed)
        let _ = std::io::Write::write_all(&mut k.stdin.take().unwrap(), format!("{i} {choices}").as_bytes());
        let o = k.wait_with_output().unwrap();
        want.push(if o.status.success() { String::from_utf8_lossy(&o.stdout).into_owned() } else { "died".into() });
    }
    cx.nontrivial(&want);
    let w = v.clone();
    let got = std::thread::spawn(move || w.iter().map(|s| s.outcome()).collect::<Vec<_>>()).join().map_err(|_| "died")?;
    for (i, g) in got.iter().enumerate() {
        differ("in a process that has done other things", &v[i], &want[i], g)?;
    }
    Ok(())
}
/// The same steps while other threads do theirs.
pub fn in_parallel(cx: &mut Cx) -> R {
    let v = Arc::new(steps(cx, 6));
    let want: Vec<String> = v.iter().map(alone).collect();
    cx.nontrivial(&want);
    let go = Arc::new(Barrier::new(3));
    let hs: Vec<_> = (0..3)
        .map(|t| {
            let (v, go) = (v.clone(), go.clone());
            std::thread::spawn(move || {
                go.wait();
                (0..2 * v.len()).map(|i| (i + t) % v.len()).map(|i| (i, v[i].outcome())).collect::<Vec<_>>()
            })
        })
        .collect();
    for h in hs {
        for (i, g) in h.join().map_err(|_| "died")? {
            differ("beside other threads", &v[i], &want[i], &g)?;
        }
    }
    Ok(())
}
/// The same steps from inside a user's codec, half way through a record.
pub fn inside(cx: &mut Cx) -> R {
    let n = cx.s.range(0, 5);
    let outer = User(cx.s.bytes(n));
    let v: Vec<Step> = steps(cx, 6);
    let want: Vec<String> = v.iter().map(alone).collect();
    let o = outer.clone();
    let (base, occasions) = std::thread::spawn(move || (o.outcome(), ASIDE.with(|a| a.take().occasion))).join().map_err(|_| "died")?;
    cx.nontrivial(&(&base, &want));
    ensure!(occasions > 0, "nothing is ever done half way");
    let when: Vec<usize> = (0..cx.s.range(1, 24)).map(|_| cx.s.range(0, occasions - 1)).collect();
    let (o, w) = (outer.clone(), v.clone());
    let (got, inner) = std::thread::spawn(move || {
        ASIDE.with(|a| *a.borrow_mut() = Plan { steps: w, when, ..Plan::default() });
        (o.outcome(), ASIDE.with(|a| a.take().got))
    })
    .join()
    .map_err(|_| "died")?;
    differ("with codec calls made half way", &outer, &base, &got)?;
    for (k, g) in inner.iter().enumerate() {
        let i = k % v.len();
        differ("half way through encoding or decoding something else", &v[i], &want[i], g)?;
    }
    Ok(())
}
