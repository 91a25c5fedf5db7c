//! Operation histories on the three parsers, against a model that knows only
//! the data, the cursor and the ends of the open windows.
use tedium::dynamic::LenPref;
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::parse::error::{ExternalError, ParseError, TagType, TagValidator, TokenError, WindowError};
use tedium::parse::ParserExt;
use tedium::*;
use vcore::engine::*;
use vcore::{ensure, ensure_eq};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Byte,
    Memo,
    Slice,
}
pub const KINDS: [Kind; 3] = [Kind::Byte, Kind::Memo, Kind::Slice];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lp {
    L1,
    L2,
    L4,
}
impl Lp {
    pub fn width(self) -> usize {
        match self {
            Lp::L1 => 1,
            Lp::L2 => 2,
            Lp::L4 => 4,
        }
    }
}
pub const KV: [(usize, usize); 13] = [(1, 1), (2, 3), (4, 0), (0, 1), (1, 4), (3, 2), (2, 1), (0, 0), (9, 1), (8, 8), (16, 2), (33, 1), (1, 40)];
pub const ARR: [usize; 8] = [0, 1, 2, 3, 5, 8, 33, 64];

#[derive(Clone, PartialEq, Debug)]
pub enum Op {
    Byte,
    Consume(usize),
    Arr(usize),
    Dyn(usize),
    Fixed(usize),
    U8,
    I8,
    U16,
    I16,
    U32,
    I32,
    U64,
    I64,
    F64,
    Bool,
    Tag8(Vec<u8>, u8),
    Tag16(Vec<u16>, u8),
    Tag32(Vec<u32>, u8),
    SelfTerm(u8),
    SetFit(usize),
    Test,
    Enforce,
    Skip(usize),
    SkipExact(usize),
    SkipDyn(Lp),
    Prefix(Lp),
    /// widths index, key, whether the value closure ran at all is observed
    Kv(usize, Vec<u8>),
    Next,
    /// Whole values by their `Decode`: no model, only cross-parser agreement.
    Whole(u8),
}

#[derive(Clone, PartialEq, Debug)]
pub enum V {
    B(Vec<u8>),
    I(i128),
    F(u64),
    Unit,
    Bool(bool),
    Opt(Option<Vec<u8>>),
    S(String),
}

pub trait Par: Parser + ParserExt + Iterator<Item = u8> {}
impl<P: Parser + ParserExt + Iterator<Item = u8>> Par for P {}

macro_rules! arr {
    ($p:ident, $f:ident, $n:expr) => {
        match $n {
            0 => $p.$f::<0>().map(|x| V::B(x.to_vec())),
            1 => $p.$f::<1>().map(|x| V::B(x.to_vec())),
            2 => $p.$f::<2>().map(|x| V::B(x.to_vec())),
            3 => $p.$f::<3>().map(|x| V::B(x.to_vec())),
            5 => $p.$f::<5>().map(|x| V::B(x.to_vec())),
            8 => $p.$f::<8>().map(|x| V::B(x.to_vec())),
            33 => $p.$f::<33>().map(|x| V::B(x.to_vec())),
            64 => $p.$f::<64>().map(|x| V::B(x.to_vec())),
            _ => unreachable!(),
        }
    };
}
fn kv<P: Par, const A: usize, const B: usize>(p: &mut P, key: &[u8]) -> Result<V, ParseError> {
    let k: [u8; A] = key.try_into().unwrap();
    p.fast_kv_search::<[u8; A], Vec<u8>, _, A, B>(&k, |v: [u8; B]| v.to_vec()).map(V::Opt)
}
pub struct Marker;
/// A validator of the user's own: it knows its tags, and lists them only if asked to.
struct Own<T>(Vec<T>, bool);
impl<T: TagType + PartialEq> TagValidator<T> for Own<T> {
    fn is_valid(&self, raw: T) -> bool {
        self.0.contains(&raw)
    }
    fn has_valid(&self) -> bool {
        !self.0.is_empty()
    }
    fn into_valid(self) -> Vec<T> {
        if self.1 {
            self.0
        } else {
            vec![]
        }
    }
}
macro_rules! tag {
    ($p:ident, $t:ty, $v:expr, $how:expr) => {{
        let v = $v.clone();
        match $how {
            0 => $p.take_tagword::<Marker, $t, Vec<$t>>(v),
            1 => $p.take_tagword::<Marker, $t, &[$t]>(&v[..]),
            2 => $p.take_tagword::<Marker, $t, &Vec<$t>>(&v),
            3 => $p.take_tagword::<Marker, $t, std::collections::HashSet<$t>>(v.iter().copied().collect()),
            6 => $p.take_tagword::<Marker, $t, Own<$t>>(Own(v, false)),
            7 => $p.take_tagword::<Marker, $t, Own<$t>>(Own(v, true)),
            how => match (v.len(), how % 2) {
                (0, 0) => $p.take_tagword::<Marker, $t, [$t; 0]>([]),
                (0, _) => $p.take_tagword::<Marker, $t, &[$t; 0]>(&[]),
                (1, 0) => $p.take_tagword::<Marker, $t, [$t; 1]>([v[0]]),
                (1, _) => $p.take_tagword::<Marker, $t, &[$t; 1]>(&[v[0]]),
                (3, 0) => $p.take_tagword::<Marker, $t, [$t; 3]>([v[0], v[1], v[2]]),
                (3, _) => $p.take_tagword::<Marker, $t, &[$t; 3]>(&[v[0], v[1], v[2]]),
                _ => $p.take_tagword::<Marker, $t, Vec<$t>>(v),
            },
        }
        .map(|x| V::I(x as i128))
    }};
}
pub const SELF_TERM: [fn(u8) -> bool; 4] = [|b| b & 0x80 == 0, |b| b == 0, |_| true, |b| b >= 0x40];

pub const WHOLE: usize = 10;
fn whole<P: Par>(p: &mut P, i: u8) -> Result<V, ParseError> {
    fn s<T: std::fmt::Debug>(x: T) -> V {
        V::S(format!("{x:?}"))
    }
    use tedium::Decode as D;
    Ok(match i as usize % WHOLE {
        0 => s(<Dynamic<u8, Bytes> as D>::parse(p)?.into_inner()),
        1 => s(<Dynamic<u16, String> as D>::parse(p)?.into_inner()),
        2 => s(<Dynamic<u8, Dynamic<u8, Sequence<u16>>> as D>::parse(p)?.into_inner().into_inner()),
        3 => s(<Option<u16> as D>::parse(p)?),
        4 => s(<Nullable<u8> as D>::parse(p)?.into_inner()),
        5 => s(<Padded<u8, 3> as D>::parse(p)?.into_inner()),
        6 => s(<VPadded<Bytes, 2> as D>::parse(p)?.into_inner()),
        7 => s(Into::<usize>::into(<u30 as D>::parse(p)?)),
        8 => s(<N as D>::parse(p)?.to_string()),
        _ => s(<Z as D>::parse(p)?.to_string()),
    })
}

/// Performs one operation.
pub fn apply<P: Par>(p: &mut P, op: &Op) -> Result<V, ParseError> {
    match op {
        Op::Byte => p.consume_byte().map(|b| V::B(vec![b])),
        Op::Consume(n) => p.consume(*n).map(|x| V::B(x.to_vec())),
        Op::Arr(n) => arr!(p, consume_arr, *n),
        Op::Dyn(n) => p.take_dynamic(*n).map(V::B),
        Op::Fixed(n) => arr!(p, take_fixed, *n),
        Op::U8 => p.take_u8().map(|x| V::I(x as i128)),
        Op::I8 => p.take_i8().map(|x| V::I(x as i128)),
        Op::U16 => p.take_u16().map(|x| V::I(x as i128)),
        Op::I16 => p.take_i16().map(|x| V::I(x as i128)),
        Op::U32 => p.take_u32().map(|x| V::I(x as i128)),
        Op::I32 => p.take_i32().map(|x| V::I(x as i128)),
        Op::U64 => p.take_u64().map(|x| V::I(x as i128)),
        Op::I64 => p.take_i64().map(|x| V::I(x as i128)),
        Op::F64 => p.take_f64().map(|x| V::F(x.to_bits())),
        Op::Bool => p.take_bool().map(V::Bool),
        Op::Tag8(v, h) => tag!(p, u8, v, *h),
        Op::Tag16(v, h) => tag!(p, u16, v, *h),
        Op::Tag32(v, h) => tag!(p, u32, v, *h),
        Op::SelfTerm(k) => p.take_self_terminating(SELF_TERM[*k as usize]).map(V::B),
        Op::SetFit(n) => p.set_fit(*n).map(|_| V::Unit),
        Op::Test => p.test_target().map(V::Bool),
        Op::Enforce => p.enforce_target().map(|_| V::Unit),
        Op::Skip(n) => p.skip(*n).map(|x| V::I(x as i128)),
        Op::SkipExact(n) => p.skip_exactly(*n).map(|_| V::Unit),
        Op::SkipDyn(l) => match l {
            Lp::L1 => p.skip_dynamic::<u8>(),
            Lp::L2 => p.skip_dynamic::<u16>(),
            Lp::L4 => p.skip_dynamic::<u30>(),
        }
        .map(|x| V::I(x as i128)),
        Op::Prefix(l) => match l {
            Lp::L1 => p.process_prefix::<u8>(),
            Lp::L2 => p.process_prefix::<u16>(),
            Lp::L4 => p.process_prefix::<u30>(),
        }
        .map(|x| V::I(x as i128)),
        Op::Kv(i, k) => match KV[*i] {
            (1, 1) => kv::<P, 1, 1>(p, k),
            (2, 3) => kv::<P, 2, 3>(p, k),
            (4, 0) => kv::<P, 4, 0>(p, k),
            (0, 1) => kv::<P, 0, 1>(p, k),
            (1, 4) => kv::<P, 1, 4>(p, k),
            (3, 2) => kv::<P, 3, 2>(p, k),
            (2, 1) => kv::<P, 2, 1>(p, k),
            (0, 0) => kv::<P, 0, 0>(p, k),
            (9, 1) => kv::<P, 9, 1>(p, k),
            (8, 8) => kv::<P, 8, 8>(p, k),
            (16, 2) => kv::<P, 16, 2>(p, k),
            (33, 1) => kv::<P, 33, 1>(p, k),
            (1, 40) => kv::<P, 1, 40>(p, k),
            _ => unreachable!(),
        },
        Op::Next => Ok(V::Opt(p.next().map(|b| vec![b]))),
        Op::Whole(i) => whole(p, *i),
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ex {
    Consume { req: usize, rem: usize },
    Open { n: usize, rem: usize, buf_left: usize, windowed: bool },
    Residue(usize),
    NoWindow,
    Bool(u8),
    Tag { val: u64, valid: Vec<u64>, width: usize },
    NoTags,
    NonTerm(Vec<u8>),
    Range(i128),
}

pub struct Model {
    pub data: Vec<u8>,
    pub cur: usize,
    pub frames: Vec<usize>,
    /// what each consuming call took
    pub groups: Vec<usize>,
}
impl Model {
    pub fn new(data: Vec<u8>) -> Self {
        Model { data, cur: 0, frames: vec![], groups: vec![] }
    }
    pub fn end(&self) -> usize {
        self.frames.last().copied().unwrap_or(self.data.len())
    }
    pub fn rem(&self) -> usize {
        self.end() - self.cur
    }
    pub fn take(&mut self, n: usize) -> Result<Vec<u8>, Ex> {
        if n > self.rem() {
            return Err(Ex::Consume { req: n, rem: self.rem() });
        }
        let r = self.data[self.cur..self.cur + n].to_vec();
        self.cur += n;
        self.groups.push(n);
        Ok(r)
    }
    fn num(&mut self, n: usize) -> Result<u64, Ex> {
        Ok(self.take(n)?.iter().fold(0, |a, b| a << 8 | *b as u64))
    }
    pub fn open(&mut self, n: usize) -> Result<(), Ex> {
        if n > self.rem() {
            return Err(Ex::Open { n, rem: self.rem(), buf_left: self.data.len() - self.cur, windowed: !self.frames.is_empty() });
        }
        self.frames.push(self.cur + n);
        Ok(())
    }
    pub fn close(&mut self) -> Result<(), Ex> {
        if self.frames.is_empty() {
            Err(Ex::NoWindow)
        } else if self.rem() > 0 {
            Err(Ex::Residue(self.rem()))
        } else {
            self.frames.pop();
            Ok(())
        }
    }
    fn lp(&mut self, l: Lp) -> Result<usize, Ex> {
        let n = self.num(l.width())? as usize;
        if l == Lp::L4 && n > 0x3fff_ffff {
            return Err(Ex::Range(n as i128));
        }
        Ok(n)
    }
    fn tag(&mut self, valid: Vec<u64>, w: usize, how: u8) -> Result<V, Ex> {
        let v = self.num(w)?;
        if valid.contains(&v) {
            Ok(V::I(v as i128))
        } else if valid.is_empty() {
            Err(Ex::NoTags)
        } else {
            Err(Ex::Tag { val: v, valid: if how == 6 { vec![] } else { valid }, width: w })
        }
    }
    /// What the operation should do; updates the model.  `None`: not modelled.
    pub fn apply(&mut self, op: &Op) -> Option<Result<V, Ex>> {
        let sign = |v: u64, w: usize| V::I(((v as i128) << (128 - 8 * w)) >> (128 - 8 * w));
        Some(match op {
            Op::Byte => self.take(1).map(V::B),
            Op::Consume(n) | Op::Arr(n) | Op::Dyn(n) | Op::Fixed(n) => self.take(*n).map(V::B),
            Op::U8 => self.num(1).map(|x| V::I(x as i128)),
            Op::U16 => self.num(2).map(|x| V::I(x as i128)),
            Op::U32 => self.num(4).map(|x| V::I(x as i128)),
            Op::U64 => self.num(8).map(|x| V::I(x as i128)),
            Op::I8 => self.num(1).map(|x| sign(x, 1)),
            Op::I16 => self.num(2).map(|x| sign(x, 2)),
            Op::I32 => self.num(4).map(|x| sign(x, 4)),
            Op::I64 => self.num(8).map(|x| sign(x, 8)),
            Op::F64 => self.num(8).map(V::F),
            Op::Bool => match self.num(1) {
                Ok(0xff) => Ok(V::Bool(true)),
                Ok(0) => Ok(V::Bool(false)),
                Ok(b) => Err(Ex::Bool(b as u8)),
                Err(e) => Err(e),
            },
            Op::Tag8(v, h) => self.tag(v.iter().map(|x| *x as u64).collect(), 1, *h),
            Op::Tag16(v, h) => self.tag(v.iter().map(|x| *x as u64).collect(), 2, *h),
            Op::Tag32(v, h) => self.tag(v.iter().map(|x| *x as u64).collect(), 4, *h),
            Op::SelfTerm(k) => {
                let f = SELF_TERM[*k as usize];
                let mut r = vec![];
                loop {
                    match self.take(1) {
                        Ok(b) => {
                            r.push(b[0]);
                            if f(b[0]) {
                                break Ok(V::B(r));
                            }
                        }
                        Err(_) => break Err(Ex::NonTerm(r)),
                    }
                }
            }
            Op::SetFit(n) => self.open(*n).map(|_| V::Unit),
            Op::Test => Ok(V::Bool(!self.frames.is_empty() && self.rem() == 0)),
            Op::Enforce => self.close().map(|_| V::Unit),
            Op::Skip(n) => {
                let m = (*n).min(self.rem());
                self.take(m).map(|_| V::I(m as i128))
            }
            Op::SkipExact(n) => self.take(*n).map(|_| V::Unit),
            Op::Prefix(l) => (|| {
                let n = self.lp(*l)?;
                self.open(n)?;
                Ok(V::I(n as i128))
            })(),
            Op::SkipDyn(l) => (|| {
                let n = self.lp(*l)?;
                self.open(n)?;
                self.take(n)?;
                self.close()?;
                Ok(V::I(n as i128))
            })(),
            Op::Kv(i, k) => {
                let (a, b) = KV[*i];
                (|| {
                    while self.rem() > 0 {
                        if self.take(a)? == *k {
                            return Ok(V::Opt(Some(self.take(b)?)));
                        }
                        self.take(b)?;
                    }
                    Ok(V::Opt(None))
                })()
            }
            Op::Next => Ok(V::Opt(self.take(1).ok())),
            Op::Whole(_) => return None,
        })
    }
}

/// Elementary: one read, one window opening or closing, one test.
pub fn elementary(op: &Op) -> bool {
    !matches!(op, Op::SelfTerm(_) | Op::SkipDyn(_) | Op::Prefix(_) | Op::Kv(..) | Op::Whole(_))
}

#[derive(Clone, Copy, PartialEq)]
pub enum Style {
    Mixed,
    Windows,
    Reads,
    Skips,
    /// windows in windows in windows
    Deep,
}
pub fn style(s: &mut Src) -> Style {
    match s.weighted(&[10, 10, 10, 10, 1]) {
        0 => Style::Mixed,
        1 => Style::Windows,
        2 => Style::Reads,
        3 => Style::Skips,
        _ => Style::Deep,
    }
}

/// Lengths at which counters and blocks change their minds.
pub const BULK: [usize; 11] = [255, 256, 1000, 1024, 4096, 8192, 65535, 65536, 70_000, 131_072, 200_000];

/// Many bytes out of few choices.
pub fn bulk(s: &mut Src, n: usize) -> Vec<u8> {
    match s.draw(2) {
        0 => vec![s.byte(); n],
        1 => {
            let k = s.range(1, 9);
            let pat = s.bytes(k);
            pat.iter().copied().cycle().take(n).collect()
        }
        _ => {
            let mut r = Rng::new(s.draw(u64::MAX));
            (0..n).map(|_| r.next() as u8).collect()
        }
    }
}

/// Bulk which may start with the length of what follows.
fn with_prefix(s: &mut Src, n: usize) -> Vec<u8> {
    let mut b = bulk(s, n);
    let d = s.range(0, 3);
    if s.coin() {
        b[..4].copy_from_slice(&((n - 4).saturating_sub(d) as u32).to_be_bytes());
    }
    b
}

pub fn data(s: &mut Src) -> Vec<u8> {
    if s.chance(1, 200) {
        let n = *s.pick(&BULK) + s.range(0, 2) - 1;
        return with_prefix(s, n);
    }
    if s.chance(1, 8000) {
        let n = s.giant_len();
        return with_prefix(s, n);
    }
    let len = match s.weighted(&[4, 8, 2]) {
        0 => s.range(0, 8),
        1 => s.range(0, 80),
        _ => s.range(0, 400),
    };
    let style = s.weighted(&[4, 3, 2]);
    (0..len)
        .map(|_| match style {
            0 => match s.weighted(&[4, 3, 2]) {
                0 => s.draw(9) as u8,
                1 => s.byte(),
                _ => *s.pick(&[0u8, 0xff]),
            },
            1 => s.draw(3) as u8,
            _ => s.byte(),
        })
        .collect()
}

/// Draws an operation; `rem` and the upcoming bytes steer it towards the
/// interesting amounts.
pub fn op(s: &mut Src, st: Style, rem: usize, ahead: &[u8], whole: bool) -> Op {
    let (r, w, k, c) = match st {
        Style::Mixed => (6, 4, 3, 2),
        Style::Windows => (2, 9, 2, 2),
        Style::Reads => (10, 2, 1, 1),
        Style::Skips => (2, 3, 7, 3),
        Style::Deep => (1, 18, 1, 1),
    };
    // a window whose rest a narrow counter takes for nothing
    if rem > 0 && rem % 256 == 0 && s.chance(1, 2) {
        return if s.coin() { Op::Enforce } else { Op::Test };
    }
    match s.weighted(&[r, w, k, c]) {
        0 => match s.weighted(&[5, 5, 3, 3, 2, 9, 3, 3, 2, 2]) {
            0 => Op::Byte,
            1 => Op::Consume(s.amount(rem)),
            2 => Op::Arr(*s.pick(&ARR)),
            3 => Op::Dyn(s.amount(rem)),
            4 => Op::Fixed(*s.pick(&ARR)),
            5 => s
                .pick(&[Op::U8, Op::I8, Op::U16, Op::I16, Op::U32, Op::I32, Op::U64, Op::I64, Op::F64])
                .clone(),
            6 => Op::Bool,
            7 => {
                let n = if s.chance(1, 12) { s.range(5, 300) } else { s.range(0, 4) };
                let how = s.draw(7) as u8;
                let look = s.chance(2, 3);
                let at = |w: usize| ahead.iter().take(w).fold(0u64, |a, b| a << 8 | *b as u64);
                match s.draw(2) {
                    0 => {
                        let mut v: Vec<u8> = (0..n).map(|_| s.byte()).collect();
                        if look && n > 0 {
                            let i = s.range(0, n - 1);
                            v[i] = at(1) as u8;
                        }
                        Op::Tag8(v, how)
                    }
                    1 => {
                        let mut v: Vec<u16> = (0..n).map(|_| s.draw(65535) as u16).collect();
                        if look && n > 0 {
                            let i = s.range(0, n - 1);
                            v[i] = at(2) as u16;
                        }
                        Op::Tag16(v, how)
                    }
                    _ => {
                        let mut v: Vec<u32> = (0..n).map(|_| s.draw(u32::MAX as u64) as u32).collect();
                        if look && n > 0 {
                            let i = s.range(0, n - 1);
                            v[i] = at(4) as u32;
                        }
                        Op::Tag32(v, how)
                    }
                }
            }
            8 => Op::SelfTerm(s.draw(3) as u8),
            _ => Op::Next,
        },
        1 => match s.weighted(&if st == Style::Deep { [17, 1, 1] } else { [8, 3, 6] }) {
            0 if st == Style::Deep => Op::SetFit(rem - s.draw(1).min(rem as u64) as usize),
            0 => Op::SetFit(match s.weighted(&[3, 3, 1]) {
                0 => s.range(0, rem),
                1 => rem.saturating_sub(s.range(0, 2)),
                _ => s.amount(rem),
            }),
            1 => Op::Test,
            _ => Op::Enforce,
        },
        2 => match s.weighted(&[4, 4]) {
            0 => Op::Skip(s.amount(rem)),
            _ => Op::SkipExact(s.amount(rem)),
        },
        _ => {
            let l = *s.pick(&[Lp::L1, Lp::L1, Lp::L2, Lp::L4]);
            match s.weighted(&[3, 4, 4, if whole { 6 } else { 0 }]) {
                0 => Op::SkipDyn(l),
                1 => Op::Prefix(l),
                2 => {
                    let i = s.draw(KV.len() as u64 - 1) as usize;
                    let (a, b) = KV[i];
                    // a key that occurs, or a fresh one
                    let slots = ahead.len() / (a + b).max(1);
                    let k = if slots > 0 && s.chance(2, 3) {
                        let j = s.range(0, slots.min(12) - 1) * (a + b);
                        let mut k = ahead[j..j + a].to_vec();
                        if a > 0 && s.chance(1, 5) {
                            k[a - 1] ^= 1;
                        }
                        k
                    } else {
                        s.bytes(a)
                    };
                    Op::Kv(i, k)
                }
                _ => Op::Whole(s.draw(WHOLE as u64 - 1) as u8),
            }
        }
    }
}

/// The first three integers in `s` that follow `key`.
fn dbg_after(s: &str, key: &str) -> Option<String> {
    let i = s.find(key)? + key.len();
    Some(s[i..].to_string())
}
pub fn dbg_tag(e: &impl std::fmt::Debug) -> Option<(u64, Vec<u64>)> {
    let s = format!("{e:?}");
    let a = dbg_after(&s, "actual: ")?;
    let actual = a.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok()?;
    let l = dbg_after(&s, "expected: Some([")?;
    let l = &l[..l.find(']')?];
    let v = l.split(',').map(|x| x.trim()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    Some((actual, v))
}

pub fn sorted(mut v: Vec<u64>) -> Vec<u64> {
    v.sort();
    v.dedup();
    v
}

/// Do the contents of the error tell the truth?
pub fn check_err(e: &ParseError, ex: &Ex, m: &Model, k: Kind) -> R {
    let slice = k == Kind::Slice;
    let bad = || Err(format!("{k:?}: error {e:?} where the cause is {ex:?} (cursor {}, windows {:?}, data {} bytes)", m.cur, m.frames, m.data.len()));
    let ok = match (e, ex) {
        (ParseError::Window(WindowError::ConsumeWouldExceedLimit { offset, requested, limit }), Ex::Consume { req, rem }) => {
            requested == req && limit.checked_sub(*offset) == Some(*rem) && (slice || *offset == m.cur)
        }
        (ParseError::Window(WindowError::OpenWouldExceedBuffer { bytes_left, request }), Ex::Open { n, rem, buf_left, windowed }) => {
            request == n && (!windowed || (*n > *buf_left && !slice)) && bytes_left == if *windowed { buf_left } else { rem }
        }
        (ParseError::Window(WindowError::OpenWouldExceedWindow { limit, request }), Ex::Open { n, rem, windowed, .. }) => request == n && *windowed && limit == rem,
        (ParseError::Window(WindowError::CloseWithResidue { residual }), Ex::Residue(r)) => residual == r,
        (ParseError::Window(WindowError::CloseWithoutWindow), Ex::NoWindow) => true,
        (ParseError::Token(TokenError::InvalidBoolean(b)), Ex::Bool(x)) => b == x,
        (ParseError::Token(TokenError::InvalidTagU8(t)), Ex::Tag { val, valid, width: 1 }) => tag_ok(dbg_tag(t), *val, valid, &t.to_string()),
        (ParseError::Token(TokenError::InvalidTagU16(t)), Ex::Tag { val, valid, width: 2 }) => tag_ok(dbg_tag(t), *val, valid, &t.to_string()),
        (ParseError::Token(TokenError::InvalidTagU30(t)), Ex::Tag { val, valid, width: 4 }) => tag_ok(dbg_tag(t), *val, valid, &t.to_string()),
        (ParseError::Internal(_), Ex::NoTags) => true,
        (ParseError::Token(TokenError::NonTerminating(v)), Ex::NonTerm(x)) => v == x,
        (ParseError::External(ExternalError::IntRangeViolation(b)), Ex::Range(v)) => {
            matches!(b, tedium::error::BoundsError::Overflow { max, val } if *max as i128 == 0x3fff_ffff && *val as i128 == *v)
        }
        _ => false,
    };
    if !ok {
        return bad();
    }
    // the quantities must also appear in what the user reads
    let text = e.to_string();
    let mut want: Vec<usize> = vec![];
    match ex {
        Ex::Consume { req, .. } => want.push(*req),
        Ex::Open { n, .. } => want.push(*n),
        Ex::Residue(r) => want.push(*r),
        _ => {}
    }
    for w in want {
        ensure!(text.contains(&w.to_string()), "{k:?}: message {text:?} does not mention {w} ({ex:?})");
    }
    Ok(())
}
fn tag_ok(t: Option<(u64, Vec<u64>)>, val: u64, valid: &[u64], shown: &str) -> bool {
    match t {
        Some((a, v)) => a == val && sorted(v) == sorted(valid.to_vec()) && shown.contains(&format!("{val:x}")),
        None => false,
    }
}

/// Position of the parser as far as it shows.
pub fn observe<P: Par>(p: &P, m: &Model, k: Kind, what: &dyn Fn() -> String) -> R {
    let (v, o, r) = (p.view_len(), p.offset(), p.remainder());
    ensure!(v.checked_sub(o) == Some(r), "{k:?}: after {}: view length {v} - offset {o} is not the remaining count {r}", what());
    ensure!(r == m.rem(), "{k:?}: after {}: {r} bytes remain, expected {}", what(), m.rem());
    if k != Kind::Slice {
        ensure!(o == m.cur, "{k:?}: after {}: offset {o}, expected {}", what(), m.cur);
    }
    Ok(())
}

/// Drains and closes everything: what is left of each window, innermost first,
/// and last of the buffer itself.
pub fn unwind<P: Par>(p: &mut P) -> Result<Vec<Vec<u8>>, String> {
    let mut out = vec![];
    loop {
        let r = p.remainder();
        let b = p.take_dynamic(r).map_err(|e| format!("draining {r} remaining bytes fails: {e:?}"))?;
        out.push(b);
        match p.enforce_target() {
            Ok(()) => {}
            Err(ParseError::Window(WindowError::CloseWithoutWindow)) => return Ok(out),
            Err(e) => return Err(format!("closing a drained window fails: {e:?}")),
        }
        if out.len() > 5000 {
            return Err("windows never run out".into());
        }
    }
}
pub fn model_unwind(m: &Model) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut cur = m.cur;
    for f in m.frames.iter().rev() {
        out.push(m.data[cur..*f].to_vec());
        cur = *f;
    }
    out.push(m.data[cur..].to_vec());
    out
}

#[macro_export]
macro_rules! with_parser {
    ($k:expr, $data:expr, $p:ident => $body:expr) => {
        match $k {
            Kind::Byte => {
                let mut $p = ByteParser::from_buffer(VecBuffer::from($data.to_vec().roomy()));
                $body
            }
            Kind::Memo => {
                let mut $p = MemoParser::from_buffer(VecBuffer::from($data.to_vec().roomy()));
                $body
            }
            Kind::Slice => {
                let mut $p = SliceParser::from_buffer(SliceBuffer::from(&$data[..]));
                $body
            }
        }
    };
}

pub fn draw_ops_count(s: &mut Src, st: Style, len: usize) -> usize {
    if len > 1000 {
        return s.range(0, 16);
    }
    if st == Style::Deep {
        return s.range(0, 400);
    }
    match s.weighted(&[6, 3, 1]) {
        0 => s.range(0, 12),
        1 => s.range(0, 45),
        _ => s.range(0, 220),
    }
}

pub fn show(ops: &[Op]) -> String {
    let v: Vec<String> = ops.iter().map(|o| format!("{o:?}")).collect();
    v.join(" ")
}

/// C08 and C24: a history on one parser against the model.
pub fn against_model(cx: &mut Cx, k: Kind, errors: bool) -> R {
    let d = data(&mut cx.s);
    let st = style(&mut cx.s);
    let n = draw_ops_count(&mut cx.s, st, d.len());
    let mut m = Model::new(d.clone());
    let mut ops = vec![];
    let (mut fails, mut depth) = (0, 0);
    let mut saw = [false; 9];
    let res = with_parser!(k, d, p => {
        (|| -> R {
            observe(&p, &m, k, &|| "construction".into())?;
            for _ in 0..n {
                let o = op(&mut cx.s, st, m.rem(), &m.data[m.cur..m.end()], false);
                ops.push(o.clone());
                let before = (m.cur, m.frames.clone());
                let will_close = p.test_target();
                let want = m.apply(&o).unwrap();
                let got = apply(&mut p, &o);
                let what = || format!("{:?} at {} windows {:?} of {} bytes", o, before.0, before.1, d.len());
                match (&got, &want) {
                    (Ok(a), Ok(b)) => ensure!(a == b, "{k:?}: {} gives {a:?}, expected {b:?}", what()),
                    (Err(e), Err(x)) => {
                        fails += 1;
                        saw[match x { Ex::Consume{..} => 0, Ex::Open{..} => 1, Ex::Residue(_) => 2, Ex::NoWindow => 3, Ex::Bool(_) => 4, Ex::Tag{..} => 5, Ex::NoTags => 6, Ex::NonTerm(_) => 7, Ex::Range(_) => 8 }] = true;
                        if errors {
                            // the model has moved on already: errors speak of the state they were raised in
                            let at = match x { Ex::Consume{..} | Ex::Open{..} => { &m } _ => &m };
                            check_err(e, x, at, k)?;
                        }
                    }
                    (Ok(a), Err(x)) => return Err(format!("{k:?}: {} succeeds with {a:?} although it should fail: {x:?}", what())),
                    (Err(e), Ok(b)) => return Err(format!("{k:?}: {} fails with {e:?}, expected {b:?}", what())),
                }
                if matches!(o, Op::Enforce) {
                    ensure!(matches!(will_close, Ok(b) if b == got.is_ok()), "{k:?}: test_target said {will_close:?} before {} which gave {got:?}", what());
                }
                depth = depth.max(m.frames.len());
                observe(&p, &m, k, &what)?;
            }
            let left = unwind(&mut p)?;
            ensure_eq!(left, model_unwind(&m), "{k:?}: unread bytes by window, innermost first, after the history");
            Ok(())
        })()
    });
    for (i, c) in ["err:consume", "err:open", "err:residue", "err:no-window", "err:bool", "err:tag", "err:no-tags", "err:unterminated", "err:range"].iter().enumerate() {
        if saw[i] {
            cx.class(c);
        }
    }
    if depth >= 3 {
        cx.class("nesting>=3");
    }
    if depth >= 11 {
        cx.class("nesting>=11");
    }
    if depth >= 130 {
        cx.class("nesting>=130");
    }
    if fails > 0 || depth > 0 {
        cx.nontrivial(&(format!("{ops:?}"), &d, k as u8));
    }
    let dd = d.clone();
    cx.note(|| format!("{k:?} over {} bytes {:02x?}: {}", dd.len(), &dd[..dd.len().min(24)], show(&ops)));
    res
}

/// C06: the same history on all three parsers.
pub fn three_way(cx: &mut Cx) -> R {
    let d = data(&mut cx.s);
    let st = style(&mut cx.s);
    let n = draw_ops_count(&mut cx.s, st, d.len());
    let mut a = ByteParser::from_buffer(VecBuffer::from(d.clone().roomy()));
    let mut b = MemoParser::from_buffer(VecBuffer::from(d.clone().roomy()));
    let mut c = SliceParser::from_buffer(SliceBuffer::from(&d[..]));
    let mut ops = vec![];
    let (mut fails, mut wins) = (0, 0);
    let res = (|| -> R {
        for _ in 0..n {
            let rem = a.remainder();
            let cur = a.offset();
            let end = (cur + rem).min(d.len());
            let o = op(&mut cx.s, st, rem, &d[cur.min(end)..end], true);
            ops.push(o.clone());
            let (x, y, z) = (apply(&mut a, &o), apply(&mut b, &o), apply(&mut c, &o));
            let ok = (x.is_ok(), y.is_ok(), z.is_ok());
            ensure!(ok.0 == ok.1 && ok.1 == ok.2, "{o:?} with {rem} bytes remaining: byte parser {x:?}, memo parser {y:?}, slice parser {z:?}");
            if let (Ok(x), Ok(y), Ok(z)) = (&x, &y, &z) {
                ensure!(x == y && y == z, "{o:?} returns {x:?} / {y:?} / {z:?}");
                wins += matches!(o, Op::SetFit(_) | Op::Prefix(_)) as usize;
            } else {
                fails += 1;
            }
            let r = (a.remainder(), b.remainder(), c.remainder());
            ensure!(r.0 == r.1 && r.1 == r.2, "after {o:?} the byte, memo and slice parsers have {r:?} bytes remaining");
            let t = (a.test_target().ok(), b.test_target().ok(), c.test_target().ok());
            ensure!(t.0 == t.1 && t.1 == t.2, "after {o:?} test_target says {t:?}");
        }
        let (x, y, z) = (unwind(&mut a)?, unwind(&mut b)?, unwind(&mut c)?);
        ensure!(x == y && y == z, "unread bytes by window differ: {x:?} / {y:?} / {z:?}");
        Ok(())
    })();
    if fails > 0 && wins > 0 {
        cx.nontrivial(&(format!("{ops:?}"), &d));
    }
    if wins > 2 {
        cx.class("windows>2");
    }
    cx.note(|| format!("{} bytes {:02x?}: {}", d.len(), &d[..d.len().min(24)], show(&ops)));
    res
}

/// C10: what finalising reports.
pub fn cleanup(cx: &mut Cx, k: Kind) -> R {
    use tedium::parse::cleanup::LeftoverState as L;
    let d = data(&mut cx.s);
    let st = style(&mut cx.s);
    let n = draw_ops_count(&mut cx.s, st, d.len());
    let mut m = Model::new(d.clone());
    let mut ops = vec![];
    let res = with_parser!(k, d, p => {
        (|| -> R {
            for _ in 0..n {
                let o = op(&mut cx.s, st, m.rem(), &m.data[m.cur..m.end()], false);
                ops.push(o.clone());
                let _ = m.apply(&o);
                let _ = apply(&mut p, &o);
            }
            let left = p.cleanup().map_err(|e| format!("{k:?}: finalising fails: {e:?}"))?;
            let want = model_unwind(&m);
            let flat: Vec<u8> = want.concat();
            ensure_eq!(left.len(), flat.len(), "{k:?}: number of leftover bytes");
            ensure_eq!(left.is_empty(), flat.is_empty(), "{k:?}: emptiness of the leftovers");
            match &left {
                L::Empty => ensure!(m.frames.is_empty() && flat.is_empty(), "{k:?}: reports nothing left, expected {want:?}"),
                L::Windowless(b) => {
                    ensure!(m.frames.is_empty(), "{k:?}: reports no open window, expected {} of them", m.frames.len());
                    ensure_eq!(*b, flat, "{k:?}: leftover bytes");
                }
                L::Windowed(sv) => {
                    ensure!(!m.frames.is_empty(), "{k:?}: reports windows although none is open");
                    ensure_eq!(*sv.as_ref(), flat, "{k:?}: leftover bytes");
                    let mut got: Vec<Vec<u8>> = sv.spans().map(|x| x.to_vec()).collect();
                    let mut want = want.clone();
                    // what lies outside all windows shows only when there is any
                    if got.len() > want.len() - 1 && got.last().map(|x| x.is_empty()) == Some(true) && want.last().unwrap().is_empty() {
                        got.pop();
                    }
                    if want.last().unwrap().is_empty() {
                        want.pop();
                    }
                    ensure_eq!(got, want, "{k:?}: leftover bytes by window, innermost first");
                }
            }
            Ok(())
        })()
    });
    if !m.frames.is_empty() {
        cx.nontrivial(&(format!("{ops:?}"), &d, k as u8));
        if m.frames.len() > 2 {
            cx.class("open windows > 2");
        }
        if model_unwind(&m).iter().any(|x| x.is_empty()) {
            cx.class("a window without residue");
        }
    } else {
        cx.class("no window open");
    }
    cx.note(|| format!("{k:?} over {} bytes, {} windows open at {}: {}", d.len(), m.frames.len(), m.cur, show(&ops)));
    res
}

/// C10: the leftover state built by hand.
pub fn leftover_state(cx: &mut Cx) -> R {
    use tedium::parse::cleanup::LeftoverState as L;
    let n = if cx.s.chance(1, 60) { cx.s.range(0, 600) } else { cx.s.range(0, 14) };
    let mut l = if cx.s.coin() { L::new() } else { L::default() };
    let mut segs: Vec<Vec<u8>> = vec![];
    let mut cur: Vec<u8> = vec![];
    let mut windowed = false;
    let mut log = String::new();
    for _ in 0..n {
        if cx.s.chance(3, 5) {
            let mut b = if n <= 14 && cx.s.chance(1, 400) {
                let len = *cx.s.pick(&BULK) + cx.s.range(0, 2) - 1;
                bulk(&mut cx.s, len)
            } else {
                let len = cx.s.range(0, 5);
                cx.s.bytes(len)
            };
            cur.extend(&b);
            log += &format!("append({}) ", b.len());
            l.append(&mut b);
            ensure!(b.is_empty(), "append leaves {} bytes behind in its argument", b.len());
        } else {
            log += "escape ";
            l.escape_context();
            segs.push(std::mem::take(&mut cur));
            windowed = true;
        }
        let flat: usize = segs.iter().map(|s| s.len()).sum::<usize>() + cur.len();
        ensure_eq!(l.len(), flat, "length after {log}");
        ensure_eq!(l.is_empty(), flat == 0, "emptiness after {log}");
    }
    let flat: Vec<u8> = segs.concat().into_iter().chain(cur.iter().copied()).collect();
    match &l {
        L::Empty => ensure!(!windowed && flat.is_empty(), "empty after {log}"),
        L::Windowless(b) => {
            ensure!(!windowed, "no window after {log}");
            ensure_eq!(*b, flat, "bytes after {log}");
        }
        L::Windowed(sv) => {
            ensure!(windowed, "windowed after {log}");
            ensure_eq!(*sv.as_ref(), flat, "bytes after {log}");
            let mut got: Vec<Vec<u8>> = sv.spans().map(|x| x.to_vec()).collect();
            if got.len() == segs.len() + 1 && got.last().unwrap().is_empty() && cur.is_empty() {
                got.pop();
            }
            let mut want = segs.clone();
            if !cur.is_empty() {
                want.push(cur.clone());
            }
            ensure_eq!(got, want, "segments after {log}");
            // the same from the back
            let mut back: Vec<Vec<u8>> = sv.spans().rev().map(|x| x.to_vec()).collect();
            back.reverse();
            let fwd: Vec<Vec<u8>> = sv.spans().map(|x| x.to_vec()).collect();
            ensure_eq!(back, fwd, "segments from the back after {log}");
        }
    }
    if windowed && !flat.is_empty() {
        cx.nontrivial(&(&log, &flat));
    }
    cx.note(|| log.clone());
    Ok(())
}

/// C11: twin parsers, one skips, the other reads and discards.
pub fn twins(cx: &mut Cx, k: Kind) -> R {
    let mut d = data(&mut cx.s);
    let st = style(&mut cx.s);
    let mut n = cx.s.range(0, 9);
    // a packed region or a prefixed block to work on, now and then
    let shape = cx.s.draw(3);
    let mut table = None;
    let mut at_hand = None;
    let mut bulky = false;
    if shape == 1 {
        let i = cx.s.draw(KV.len() as u64 - 1) as usize;
        let (a, b) = KV[i];
        table = Some(i);
        let m = cx.s.range(0, 10);
        if a > 0 && cx.s.coin() {
            // keys that differ from one another in a single byte
            let base = cx.s.bytes(a);
            d = vec![];
            for _ in 0..m {
                let mut key = base.clone();
                let at = if cx.s.coin() { a - 1 } else { cx.s.range(0, a - 1) };
                key[at] ^= cx.s.draw(3) as u8;
                d.extend(key);
                d.extend(cx.s.bytes(b));
            }
            let extra = cx.s.draw(3) as usize;
            let extra = cx.s.bytes(if extra < 2 { 0 } else { extra });
            d.extend(extra);
        } else {
            d = (0..m * (a + b)).map(|_| cx.s.draw(2) as u8).collect();
        }
    } else if shape == 2 {
        let w = *cx.s.pick(&[1usize, 2, 4]);
        bulky = w > 1 && cx.s.chance(1, 25);
        let len = if bulky { (*cx.s.pick(&BULK) + cx.s.range(0, 2) - 1).min(if w == 2 { 65535 } else { 1 << 20 }) } else { cx.s.range(0, 20) };
        let mut pre = (len as u32).to_be_bytes()[4 - w..].to_vec();
        at_hand = Some([Lp::L1, Lp::L2, Lp::L4][w / 2]);
        if cx.s.chance(1, 4) {
            pre[0] |= *cx.s.pick(&[1u8, 0x3f, 0x40, 0x80, 0xff]);
        }
        let extra = cx.s.range(0, 6);
        let short = cx.s.chance(1, 4);
        d = pre;
        let body = if short { len.saturating_sub(1) } else { len + extra };
        let body = if bulky { bulk(&mut cx.s, body) } else { cx.s.bytes(body) };
        d.extend(body);
        if bulky || cx.s.coin() {
            n = 0;
        }
    }
    if table.is_some() {
        n = n.saturating_sub(5);
    }
    let mut m = Model::new(d.clone());
    let mut ops = vec![];
    for _ in 0..n {
        let o = op(&mut cx.s, st, m.rem(), &m.data[m.cur..m.end()], false);
        let _ = m.apply(&o);
        ops.push(o);
    }
    let rem = m.rem();
    let lp = match at_hand {
        Some(l) if cx.s.chance(2, 3) => l,
        _ => *cx.s.pick(&[Lp::L1, Lp::L2, Lp::L4]),
    };
    let o = match if table.is_some() { cx.s.draw(7) } else { cx.s.draw(4) } {
        0 => Op::Skip(cx.s.amount(rem)),
        1 => Op::SkipExact(cx.s.amount(rem)),
        2 => Op::SkipDyn(lp),
        3 => Op::Prefix(lp),
        _ => {
            let i = match table {
                Some(i) if cx.s.chance(4, 5) => i,
                _ => cx.s.draw(KV.len() as u64 - 1) as usize,
            };
            let (a, b) = KV[i];
            let ahead = &m.data[m.cur..m.end()];
            let slots = ahead.len() / (a + b).max(1);
            let key = if slots > 0 && cx.s.chance(3, 4) {
                let j = cx.s.range(0, slots.min(12) - 1) * (a + b);
                let mut key = ahead[j..j + a].to_vec();
                if a > 0 && cx.s.chance(1, 4) {
                    let at = cx.s.range(0, a - 1);
                    key[at] ^= 1 + cx.s.draw(1) as u8;
                }
                key
            } else {
                cx.s.bytes(a)
            };
            Op::Kv(i, key)
        }
    };
    let res = with_parser!(k, d, p => {
        with_parser!(k, d, q => {
            (|| -> R {
                for x in &ops {
                    let _ = apply(&mut p, x);
                    let _ = apply(&mut q, x);
                }
                let got = apply(&mut p, &o);
                let want = discard(&mut q, &o);
                let same = match (&got, &want) {
                    (Ok(a), Ok(b)) => a == b,
                    (Err(_), Err(_)) => true,
                    _ => false,
                };
                ensure!(same, "{k:?}: {o:?} with {rem} bytes remaining gives {got:?}, reading and discarding gives {want:?}");
                let s = ((p.view_len(), p.offset(), p.remainder()), (q.view_len(), q.offset(), q.remainder()));
                ensure!(s.0 == s.1, "{k:?}: {o:?} leaves (view, offset, remaining) {:?}, reading and discarding {:?}", s.0, s.1);
                let (a, b) = (unwind(&mut p)?, unwind(&mut q)?);
                ensure!(a == b, "{k:?}: {o:?} leaves unread bytes {a:02x?} by window, reading and discarding {b:02x?}");
                if d.len() >= 1000 {
                    cx.class("1000 bytes and more");
                }
                cx.class(match (&o, got.is_ok()) {
                    (Op::Skip(_), _) => "skip",
                    (Op::SkipExact(_), true) => "skip_exactly",
                    (Op::SkipExact(_), false) => "skip_exactly fails",
                    (Op::SkipDyn(_), true) => "skip_dynamic",
                    (Op::SkipDyn(_), false) => "skip_dynamic fails",
                    (Op::Prefix(_), true) => "process_prefix",
                    (Op::Prefix(_), false) => "process_prefix fails",
                    (_, true) => "fast_kv_search",
                    (_, false) => "fast_kv_search fails",
                });
                Ok(())
            })()
        })
    });
    cx.nontrivial(&(format!("{ops:?}{o:?}"), &d, k as u8));
    cx.note(|| format!("{k:?} over {:02x?}: {} then {o:?}", &d[..d.len().min(24)], show(&ops)));
    res
}

/// Reads and discards by the parser's plain reading operations.
fn discard<P: Par>(p: &mut P, o: &Op) -> Result<V, ParseError> {
    fn prefix<P: Par>(p: &mut P, l: Lp) -> Result<usize, ParseError> {
        Ok(match l {
            Lp::L1 => <u8 as tedium::Decode>::parse(p)? as usize,
            Lp::L2 => <u16 as tedium::Decode>::parse(p)? as usize,
            Lp::L4 => <u30 as tedium::Decode>::parse(p)?.into(),
        })
    }
    match o {
        Op::Skip(n) => {
            let m = (*n).min(p.remainder());
            p.consume(m).map(|b| V::I(b.len() as i128))
        }
        Op::SkipExact(n) => p.consume(*n).map(|_| V::Unit),
        Op::Prefix(l) => {
            let n = prefix(p, *l)?;
            p.set_fit(n)?;
            Ok(V::I(n as i128))
        }
        Op::SkipDyn(l) => {
            let n = prefix(p, *l)?;
            p.set_fit(n)?;
            p.consume(n)?;
            p.enforce_target()?;
            Ok(V::I(n as i128))
        }
        Op::Kv(i, k) => {
            let (a, b) = KV[*i];
            while p.remainder() > 0 {
                let key = p.consume(a)?.to_vec();
                let val = p.consume(b)?.to_vec();
                if key == *k {
                    return Ok(V::Opt(Some(val)));
                }
            }
            Ok(V::Opt(None))
        }
        _ => unreachable!(),
    }
}
#[allow(unused)]
fn lenpref_is_public<L: LenPref>() {}
