//! C17: builders.
use std::io::Write;
use tedium::Target as _;
use tedium::*;
use vcore::engine::*;
use vcore::{ensure, ensure_eq};

fn shorten(b: &[u8]) -> String {
    if b.len() <= 100 {
        format!("{b:02x?}")
    } else {
        format!("{} bytes {:02x?}..", b.len(), &b[..20])
    }
}
fn hex(b: &[u8]) -> String {
    {
        let digit = |d: u8| b"0123456789abcdef"[d as usize] as char;
        b.iter().flat_map(|x| [digit(x >> 4), digit(x & 15)]).collect()
    }
}
/// What a segment-recording builder should hold.
#[derive(Clone, Default)]
struct Segs {
    done: Vec<Vec<u8>>,
    open: Option<Vec<u8>>,
}
impl Segs {
    fn write(&mut self, b: &[u8]) {
        self.open.get_or_insert(vec![]).extend_from_slice(b)
    }
    fn resolve(&mut self) {
        self.done.extend(self.open.take())
    }
    fn all(&self) -> Vec<Vec<u8>> {
        self.done.iter().cloned().chain(self.open.clone()).collect()
    }
    fn text(&self) -> String {
        let mut s = "[|".to_string();
        for g in self.all() {
            s += &hex(&g);
            s.push('|');
        }
        s + "]"
    }
}
/// The segments shown by a textual form.
fn shown(text: &str) -> Result<Vec<String>, String> {
    let b = text.strip_prefix("[|").and_then(|t| t.strip_suffix(']')).ok_or(format!("not a list of segments: {text}"))?;
    if b.is_empty() {
        return Ok(vec![]);
    }
    let b = b.strip_suffix('|').ok_or(format!("not a list of segments: {text}"))?;
    Ok(b.split('|').map(|s| s.to_string()).collect())
}
fn check_memo(b: &MemoBuilder, m: &Segs, bytes: &[u8], what: &str) -> R {
    ensure_eq!(b.len(), bytes.len(), "MemoBuilder: length after {what}");
    ensure_eq!(b.is_empty(), bytes.is_empty(), "MemoBuilder: emptiness after {what}");
    ensure_eq!(format!("{b}"), m.text(), "MemoBuilder: text after {what}");
    // any debug form must at least show the same segments
    let plain: String = m.all().iter().map(|g| format!("{g:?}|")).collect();
    let dbg = format!("{b:?}");
    ensure!(dbg.contains(&format!("[|{plain}]")), "MemoBuilder: debug text {dbg} after {what}, expected to show [|{plain}]");
    Ok(())
}
fn check_memo_final(b: MemoBuilder, m: &Segs, bytes: &[u8], how: u64) -> R {
    match how {
        0 => {
            let f = b.finalize();
            ensure_eq!(format!("{f}"), m.text(), "MemoBuffer: text");
            let lens: Vec<usize> = m.all().iter().map(|g| g.len()).collect();
            let dbg = format!("{f:?}");
            ensure!(dbg.contains(&format!("{lens:?}")) && dbg.contains(&format!("{bytes:?}")), "MemoBuffer: debug text {dbg}, segments {lens:?}");
            let v: Vec<u8> = f.into();
            ensure_eq!(v, bytes, "MemoBuffer: bytes");
        }
        1 => ensure_eq!(b.into_vec(), bytes, "MemoBuilder: into_vec"),
        2 => ensure_eq!(b.into_hex(), hex(bytes), "MemoBuilder: into_hex"),
        3 => ensure_eq!(Vec::<u8>::from(b), bytes, "MemoBuilder: From for Vec"),
        _ => ensure_eq!(b.into_bin().ok(), String::from_utf8(bytes.to_vec()).ok(), "MemoBuilder: into_bin"),
    }
    Ok(())
}
fn check_strict_final(b: StrictBuilder, bytes: &[u8], how: u64) -> R {
    match how {
        0 => ensure_eq!(Into::<Vec<u8>>::into(b.finalize()), bytes, "StrictBuilder: finalize"),
        1 => ensure_eq!(b.into_vec(), bytes, "StrictBuilder: into_vec"),
        2 => ensure_eq!(b.into_hex(), hex(bytes), "StrictBuilder: into_hex"),
        3 => ensure_eq!(Vec::<u8>::from(b), bytes, "StrictBuilder: From for Vec"),
        _ => ensure_eq!(b.into_bin().ok(), String::from_utf8(bytes.to_vec()).ok(), "StrictBuilder: into_bin"),
    }
    Ok(())
}
fn piece(s: &mut Src) -> Vec<u8> {
    let n = match s.weighted(&[3, 3, 3, 1]) {
        0 => 0,
        1 => 1,
        2 => s.range(0, 5),
        _ => s.range(0, 40),
    };
    if s.chance(1, 3) {
        (0..n).map(|_| *s.pick(b"abc|[] 0")).collect()
    } else {
        s.bytes(n)
    }
}
pub fn history(cx: &mut Cx) -> R {
    let mut bytes: Vec<u8> = vec![];
    let mut m = Segs::default();
    let start = piece(&mut cx.s);
    let how = cx.s.draw(7);
    let mut log = vec![format!("start {how} {start:02x?}")];
    let mut begin = |m: &mut Segs, b: &[u8]| {
        bytes.extend_from_slice(b);
        m.write(b);
    };
    let (mut a, mut b, mut h, mut v): (MemoBuilder, StrictBuilder, HexString, Vec<u8>) = match how {
        0 => (MemoBuilder::create(), StrictBuilder::create(), HexString::create(), Vec::create()),
        1 => (MemoBuilder::new(), StrictBuilder::create(), HexString::new(), vec![]),
        2 => {
            begin(&mut m, &[]);
            (MemoBuilder::empty(), StrictBuilder::empty(), HexString::new(), vec![])
        }
        3 => {
            begin(&mut m, &start);
            (MemoBuilder::from(start.clone().roomy()), StrictBuilder::from(start.clone().roomy()), start.clone().roomy().into(), start.clone().roomy())
        }
        4 => {
            begin(&mut m, &start);
            (MemoBuilder::from(&start[..]), StrictBuilder::from(&start[..]), start.clone().roomy().into(), start.clone().roomy())
        }
        5 => {
            begin(&mut m, &start);
            let seg = StrictBuilder::from(start.clone().roomy());
            (MemoBuilder::promote(start.clone().roomy()), StrictBuilder::promote(seg), start.clone().roomy().into(), start.clone().roomy())
        }
        6 => {
            let w = cx.s.byte();
            begin(&mut m, &[w]);
            (MemoBuilder::word(w), StrictBuilder::word(w), vec![w].into(), vec![w])
        }
        _ => {
            macro_rules! words { ($($k:literal),+) => { match cx.s.range(0, 6) { $( i if i == [0, 1, 2, 3, 8, 33, 300].iter().position(|x| *x == $k).unwrap() => {
                let b = cx.s.bytes($k);
                let a: [u8; $k] = b[..].try_into().unwrap();
                begin(&mut m, &a);
                (MemoBuilder::words(a), StrictBuilder::words(a), a.to_vec().into(), a.to_vec())
            } )+ _ => unreachable!() } } }
            words!(0, 1, 2, 3, 8, 33, 300)
        }
    };
    let n = match cx.s.weighted(&[40, 30, 10, 1]) {
        0 => cx.s.range(0, 6),
        1 => cx.s.range(0, 20),
        2 => cx.s.range(0, 80),
        _ => cx.s.range(0, 400),
    };
    let bulky = n <= 6 && cx.s.chance(1, 300);
    let res = (|| -> R {
        for _ in 0..n {
            let p = if bulky && cx.s.chance(1, 3) {
                let k = *cx.s.pick(&crate::hist::BULK) + cx.s.range(0, 2) - 1;
                crate::hist::bulk(&mut cx.s, k)
            } else {
                piece(&mut cx.s)
            };
            let kind = cx.s.weighted(&[3, 3, 4, 6, 2, 2, 1, 1, 2]);
            macro_rules! each {
                (|$t:ident| $e:expr) => {{
                    let ra = { let $t = &mut a; $e };
                    let rb = { let $t = &mut b; $e };
                    let rh = { let $t = &mut h; $e };
                    let rv = { let $t = &mut v; $e };
                    ensure!(ra == rb && rb == rh && rh == rv, "results differ: {ra:?} {rb:?} {rh:?} {rv:?} after {:?}", log);
                    ra
                }};
            }
            match kind {
                0 => {
                    let x = p.first().copied().unwrap_or(0);
                    log.push(format!("push_one {x:02x}"));
                    ensure_eq!(each!(|t| t.push_one(x)), 1, "push_one");
                    bytes.push(x);
                    m.write(&[x]);
                }
                1 => {
                    let q: &[u8] = match p.len() {
                        0 => {
                            ensure_eq!(each!(|t| t.push_many([])), 0, "push_many");
                            &[]
                        }
                        1 => {
                            ensure_eq!(each!(|t| t.push_many([p[0]])), 1, "push_many");
                            &p
                        }
                        2 | 3 => {
                            ensure_eq!(each!(|t| t.push_many([p[0], p[1]])), 2, "push_many");
                            &p[..2]
                        }
                        4097.. => {
                            let a: [u8; 4097] = p[..4097].try_into().unwrap();
                            ensure_eq!(each!(|t| t.push_many(a)), 4097, "push_many");
                            &p[..4097]
                        }
                        _ => {
                            ensure_eq!(each!(|t| t.push_many([p[0], p[1], p[2], p[3]])), 4, "push_many");
                            &p[..4]
                        }
                    };
                    log.push(format!("push_many {q:02x?}"));
                    bytes.extend(q);
                    m.write(q);
                }
                2 => {
                    log.push(format!("push_all {}", shorten(&p)));
                    ensure_eq!(each!(|t| t.push_all(&p)), p.len(), "push_all");
                    bytes.extend(&p);
                    m.write(&p);
                }
                3 => {
                    let z = cx.s.coin();
                    log.push("resolve".into());
                    if z {
                        ensure_eq!(each!(|t| t.resolve_zero()), 0, "resolve_zero");
                    } else {
                        each!(|t| t.resolve());
                    }
                    m.resolve();
                }
                4 => {
                    log.push(format!("write {}", shorten(&p)));
                    ensure_eq!(each!(|t| Write::write(t, &p).map_err(|e| e.to_string())), Ok(p.len()), "write");
                    bytes.extend(&p);
                    m.write(&p);
                }
                5 => {
                    log.push("flush".into());
                    ensure_eq!(each!(|t| Write::flush(t).map_err(|e| e.to_string())), Ok(()), "flush");
                    m.resolve();
                }
                6 => {
                    let k = cx.s.range(0, 100);
                    log.push(format!("anticipate {k}"));
                    each!(|t| t.anticipate(k));
                }
                7 => {
                    log.push("clone".into());
                    b = b.clone();
                    h = h.clone();
                }
                _ => {
                    // a whole value: its parts have segments of their own
                    let x = cx.s.draw(65535) as u16;
                    log.push(format!("u16 {x:04x}"));
                    ensure_eq!(each!(|t| x.write_to(t)), 2, "u16");
                    bytes.extend(x.to_be_bytes());
                    m.write(&x.to_be_bytes());
                    m.resolve();
                }
            }
            let what = log.last().unwrap();
            check_memo(&a, &m, &bytes, what)?;
            ensure_eq!(b.len(), bytes.len(), "StrictBuilder: length after {what}");
            ensure_eq!(b.is_empty(), bytes.is_empty(), "StrictBuilder: emptiness after {what}");
            ensure_eq!(std::borrow::Borrow::<[u8]>::borrow(&b), &bytes[..], "StrictBuilder: contents after {what}");
            ensure_eq!(h.as_bytes(), &bytes[..], "HexString: contents after {what}");
            ensure_eq!(v, bytes, "Vec: contents after {what}");
        }
        let how = cx.s.draw(4);
        check_memo(&a, &m, &bytes, "everything")?;
        check_memo_final(a, &m, &bytes, how)?;
        check_strict_final(b, &bytes, how)
    })();
    let all = m.all();
    cx.note(|| log.join("; "));
    if all.len() > 2 || all.iter().any(|g| g.is_empty()) {
        cx.nontrivial(&log.join(";"));
    }
    cx.class(if m.open.is_some() { "finalised mid-segment" } else { "finalised between segments" });
    if all.iter().any(|g| g.len() > 65535) {
        cx.class("segments over 65535 bytes");
    }
    if all.len() > 255 {
        cx.class("over 255 segments");
    }
    if all.iter().any(|g| g.is_empty()) {
        cx.class("with empty segments");
    }
    res
}

// ---------------------------------------------------------- whole values

#[derive(Clone, Debug, Encode, Decode, Estimable)]
pub struct Inner {
    pub a: u8,
    pub b: Bytes,
}
#[derive(Clone, Debug, Encode, Decode, Estimable)]
pub struct Tup(pub u16, pub N, pub bool);
cstyle!(Suit, u16, { Heart = 300, Club = 7 });
data!(Shape, u8, shape, { 0 => Dot, 5 => Line(pub u16, pub i8), 9 => Box { pub w: u32, pub h: Option<u8> } });
#[derive(Clone, Debug, Encode, Decode, Estimable)]
pub struct Outer {
    pub t: Tup,
    pub i: Dynamic<u30, Inner>,
    pub s: Suit,
    pub sh: Shape,
    pub o: Option<Tup>,
    pub l: Dynamic<u16, Sequence<Tup>>,
    pub x: FixedBytes<3>,
    pub y: FixedString<2>,
    pub z: Z,
    pub n: RangedInt<u8, 3, 12>,
    pub f: f64,
    pub p: Padded<u16, 2>,
    pub tail: Nullable<i64>,
}
/// The non-empty segments expected of each part, in order.
trait Parts {
    fn parts(&self, out: &mut Vec<Vec<u8>>);
}
fn leaf<T: Encode>(x: &T, out: &mut Vec<Vec<u8>>) {
    out.push(x.to_bytes())
}
/// The presence byte of an option opens the segment its contents go on with.
fn option<T>(x: &Option<T>, out: &mut Vec<Vec<u8>>, f: impl Fn(&T, &mut Vec<Vec<u8>>)) {
    match x {
        None => out.push(vec![0]),
        Some(x) => {
            let mut inner = vec![];
            f(x, &mut inner);
            inner[0].insert(0, 0xff);
            out.extend(inner);
        }
    }
}
impl Parts for Tup {
    fn parts(&self, out: &mut Vec<Vec<u8>>) {
        leaf(&self.0, out);
        leaf(&self.1, out);
        leaf(&self.2, out);
    }
}
impl Parts for Inner {
    fn parts(&self, out: &mut Vec<Vec<u8>>) {
        leaf(&self.a, out);
        leaf(&self.b, out);
    }
}
impl Parts for Shape {
    fn parts(&self, out: &mut Vec<Vec<u8>>) {
        leaf(&self.get_tagval(), out);
        match self {
            Shape::Dot(_) => {}
            Shape::Line(l) => {
                leaf(&l.0, out);
                leaf(&l.1, out);
            }
            Shape::Box(b) => {
                leaf(&b.w, out);
                option(&b.h, out, |h, out| leaf(h, out));
            }
        }
    }
}
fn sum(x: &[Vec<u8>]) -> usize {
    x.iter().map(|p| p.len()).sum()
}
impl Parts for Outer {
    fn parts(&self, out: &mut Vec<Vec<u8>>) {
        self.t.parts(out);
        let mut i = vec![];
        self.i.as_ref().parts(&mut i);
        out.push((sum(&i) as u32).to_be_bytes().to_vec());
        out.extend(i);
        out.push((self.s as u16).to_be_bytes().to_vec());
        self.sh.parts(out);
        option(&self.o, out, |t, out| t.parts(out));
        let mut l = vec![];
        for t in self.l.as_ref() {
            t.parts(&mut l)
        }
        out.push((sum(&l) as u16).to_be_bytes().to_vec());
        out.extend(l);
        leaf(&self.x, out);
        leaf(&self.y, out);
        leaf(&self.z, out);
        leaf(&self.n, out);
        leaf(&self.f, out);
        leaf(self.p.as_inner(), out);
        out.push(vec![0, 0]);
        if let Some(x) = self.tail.as_inner() {
            leaf(x, out)
        }
    }
}
fn tup(s: &mut Src) -> Tup {
    Tup(s.draw(65535) as u16, N::new(s.draw(1 << 20).into()), s.coin())
}
pub fn values(cx: &mut Cx) -> R {
    let s = &mut cx.s;
    let v = Outer {
        t: tup(s),
        i: {
            let k = s.range(0, 4);
            Dynamic::new(Inner { a: s.byte(), b: Bytes::from(s.bytes(k)) })
        },
        s: *s.pick(&[Suit::Heart, Suit::Club]),
        sh: match s.draw(2) {
            0 => Shape::Dot(shape::Dot),
            1 => Shape::Line(shape::Line(s.draw(65535) as u16, s.byte() as i8)),
            _ => Shape::Box(shape::Box { w: s.draw(u32::MAX as u64) as u32, h: if s.coin() { Some(s.byte()) } else { None } }),
        },
        o: if s.coin() { Some(tup(s)) } else { None },
        l: {
            let k = s.range(0, 4);
            Dynamic::new((0..k).map(|_| tup(s)).collect())
        },
        x: FixedBytes::from([s.byte(), s.byte(), s.byte()]),
        y: FixedString::from([s.byte(), s.byte()]),
        z: Z::new(vcore::model::gen_big(s, true)),
        n: RangedInt::from_i32(s.i_range(3, 12) as i32),
        f: vcore::model::gen_f64(s),
        p: Padded::new(s.draw(65535) as u16),
        tail: if s.coin() { Nullable::from(s.draw(u64::MAX) as i64) } else { Nullable::default() },
    };
    cx.note(|| format!("{v:?}"));
    let mut want = vec![];
    v.parts(&mut want);
    cx.nontrivial(&want);
    let b: MemoBuilder = guard(|| v.encode::<MemoBuilder>())?;
    let text = format!("{b}");
    let bytes: Vec<u8> = want.concat();
    let got = shown(&text)?;
    ensure_eq!(got.concat(), hex(&bytes), "segments do not make up the encoding");
    // parts which take no bytes may or may not have an (empty) segment
    let got: Vec<String> = got.into_iter().filter(|g| !g.is_empty()).collect();
    let want: Vec<String> = want.iter().map(|g| hex(g)).filter(|g| !g.is_empty()).collect();
    // zero bytes of padding may be grouped in any way, or with nothing else
    ensure_eq!(got, want, "segments of a composite value");
    ensure_eq!(b.len(), bytes.len(), "length");
    let mem = b.finalize();
    ensure_eq!(format!("{mem}"), text, "the finalised text");
    ensure_eq!(Vec::<u8>::from(mem), bytes, "the finalised bytes");
    ensure_eq!(v.encode::<StrictBuilder>().into_vec(), bytes, "StrictBuilder bytes");
    // writing it after something else leaves that alone
    let mut b = MemoBuilder::create();
    b.push_all(&[1, 2, 3]);
    b.resolve();
    v.write_to(&mut b);
    let again = shown(&format!("{b}"))?;
    ensure_eq!(again[0], "010203", "the segment before");
    ensure_eq!(again[1..].iter().filter(|g| !g.is_empty()).cloned().collect::<Vec<_>>(), want, "segments after another one");
    Ok(())
}
