//! Independent reference model of the wire format: a schema language, values,
//! an encoder, a decoder and generators.  Written from the format description
//! (README, trait docs, the Tezos data-encoding conventions); shares no code
//! with the crate under test.
use crate::engine::Src;
use num_bigint::{BigInt, BigUint, Sign};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Back {
    U8,
    I8,
    U16,
    I16,
    U32,
    I32,
}
impl Back {
    pub fn width(self) -> usize {
        match self {
            Back::U8 | Back::I8 => 1,
            Back::U16 | Back::I16 => 2,
            _ => 4,
        }
    }
    pub fn signed(self) -> bool {
        matches!(self, Back::I8 | Back::I16 | Back::I32)
    }
    pub fn range(self) -> (i128, i128) {
        let w = self.width() as u32 * 8;
        if self.signed() {
            (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1)
        } else {
            (0, (1i128 << w) - 1)
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pref {
    U8,
    U16,
    U30,
}
impl Pref {
    pub fn width(self) -> usize {
        match self {
            Pref::U8 => 1,
            Pref::U16 => 2,
            Pref::U30 => 4,
        }
    }
    pub fn max(self) -> u64 {
        match self {
            Pref::U8 => 0xff,
            Pref::U16 => 0xffff,
            Pref::U30 => (1 << 30) - 1,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Sch {
    Unit,
    Bool,
    /// width in bytes, signed
    Int(usize, bool),
    F64,
    RInt(Back, i64, i64),
    RFloat(f64, f64),
    N,
    Z,
    /// rest of window
    Bytes,
    Str,
    FixBytes(usize),
    Opt(Box<Sch>),
    Nullable(Box<Sch>),
    Dyn(Pref, Box<Sch>),
    VPad(Box<Sch>, usize),
    Pad(Box<Sch>, usize),
    Seq(Box<Sch>),
    FixSeq(Box<Sch>, usize),
    LimSeq(Box<Sch>, usize),
    /// tag width, (tag, payload fields, name)
    Enum(usize, Vec<(u64, Vec<Sch>, &'static str)>),
    Rec(Vec<Sch>),
    /// A recursive reference: self-delimiting, unpadded, at least one byte wide.
    Lazy(fn() -> Sch),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
    Unit,
    Bool(bool),
    Int(i128),
    F(u64),
    Big(BigInt),
    Bytes(Vec<u8>),
    Opt(Option<Box<Val>>),
    List(Vec<Val>),
    /// variant index, fields
    Var(usize, Vec<Val>),
}
impl Val {
    pub fn int(&self) -> i128 {
        match self {
            Val::Int(i) => *i,
            v => panic!("harness: not an int: {v:?}"),
        }
    }
    pub fn bytes(&self) -> &[u8] {
        match self {
            Val::Bytes(b) => b,
            v => panic!("harness: not bytes: {v:?}"),
        }
    }
    pub fn list(&self) -> &[Val] {
        match self {
            Val::List(b) => b,
            v => panic!("harness: not a list: {v:?}"),
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Val::Bytes(b) => 1 + b.len(),
            Val::Opt(Some(v)) => 1 + v.size(),
            Val::List(v) | Val::Var(_, v) => 1 + v.iter().map(Val::size).sum::<usize>(),
            Val::Big(b) => 1 + b.bits() as usize / 8,
            _ => 1,
        }
    }
}

impl Sch {
    /// Does decoding stop by itself, independent of the window's end?
    pub fn self_delimiting(&self) -> bool {
        match self {
            Sch::Bytes | Sch::Str | Sch::Nullable(_) | Sch::VPad(..) | Sch::Seq(_) | Sch::LimSeq(..) => false,
            Sch::Opt(t) | Sch::Pad(t, _) => t.self_delimiting(),
            Sch::FixSeq(t, n) => *n == 0 || t.self_delimiting(),
            Sch::Rec(fs) => fs.iter().all(Sch::self_delimiting),
            Sch::Enum(_, vs) => vs.iter().all(|v| v.1.iter().all(Sch::self_delimiting)),
            _ => true,
        }
    }
    pub fn has_padding(&self) -> bool {
        match self {
            Sch::Pad(..) => true,
            Sch::Opt(t) | Sch::Nullable(t) | Sch::Dyn(_, t) | Sch::VPad(t, _) | Sch::Seq(t) | Sch::FixSeq(t, _) | Sch::LimSeq(t, _) => t.has_padding(),
            Sch::Rec(fs) => fs.iter().any(Sch::has_padding),
            Sch::Enum(_, vs) => vs.iter().any(|v| v.1.iter().any(Sch::has_padding)),
            _ => false,
        }
    }
    /// Whether the declared format reserves bytes after the value that its own
    /// encoding does not contain (suffix reservation).
    pub fn reserve(&self) -> usize {
        match self {
            Sch::VPad(t, n) => n + t.reserve(),
            Sch::Opt(t) | Sch::Nullable(t) | Sch::Pad(t, _) => t.reserve(),
            Sch::Rec(fs) => fs.last().map_or(0, Sch::reserve),
            _ => 0,
        }
    }
    pub fn min_width(&self) -> usize {
        match self {
            Sch::Unit | Sch::Bytes | Sch::Str | Sch::Nullable(_) | Sch::Seq(_) | Sch::LimSeq(..) => 0,
            Sch::Bool | Sch::N | Sch::Z | Sch::Opt(_) | Sch::Lazy(_) => 1,
            Sch::Int(w, _) => *w,
            Sch::F64 | Sch::RFloat(..) => 8,
            Sch::RInt(b, ..) => b.width(),
            Sch::FixBytes(n) => *n,
            Sch::Dyn(p, t) => p.width() + t.min_width(),
            Sch::VPad(t, n) => t.min_width() + n,
            Sch::Pad(t, n) => t.min_width() + n,
            Sch::FixSeq(t, n) => t.min_width() * n,
            Sch::Rec(fs) => fs.iter().map(Sch::min_width).sum(),
            Sch::Enum(w, vs) => w + vs.iter().map(|v| v.1.iter().map(Sch::min_width).sum()).min().unwrap_or(0),
        }
    }
    /// A byte width shared by every value, if there is one.
    pub fn fixed_width(&self) -> Option<usize> {
        match self {
            Sch::Unit => Some(0),
            Sch::Bool => Some(1),
            Sch::Int(w, _) => Some(*w),
            Sch::F64 | Sch::RFloat(..) => Some(8),
            Sch::RInt(b, ..) => Some(b.width()),
            Sch::FixBytes(n) => Some(*n),
            Sch::Dyn(p, t) => t.fixed_width().map(|w| w + p.width()),
            Sch::Pad(t, n) => t.fixed_width().map(|w| w + n),
            Sch::FixSeq(t, n) => t.fixed_width().map(|w| w * n),
            Sch::Rec(fs) => fs.iter().try_fold(0, |a, f| f.fixed_width().map(|w| a + w)),
            _ => None,
        }
    }
}

// ---------------------------------------------------------------- encoding

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mark {
    Prefix,
    Tag,
    Token,
    Bounded,
    Pad,
    NumEnd,
}

/// Encodes while recording where the structurally significant bytes are.
pub fn enc(s: &Sch, v: &Val, out: &mut Vec<u8>, marks: &mut Vec<(usize, usize, Mark)>) {
    match (s, v) {
        (Sch::Unit, Val::Unit) => {}
        (Sch::Bool, Val::Bool(b)) => {
            marks.push((out.len(), 1, Mark::Token));
            out.push(if *b { 0xff } else { 0x00 });
        }
        (Sch::Int(w, _), Val::Int(i)) => be(*i, *w, out),
        (Sch::F64, Val::F(b)) => be(*b as i128, 8, out),
        (Sch::RFloat(..), Val::F(b)) => {
            marks.push((out.len(), 8, Mark::Bounded));
            be(*b as i128, 8, out)
        }
        (Sch::RInt(b, min, _), Val::Int(i)) => {
            marks.push((out.len(), b.width(), Mark::Bounded));
            let u = if *min > 0 { i - *min as i128 } else { *i };
            be(u, b.width(), out)
        }
        (Sch::N, Val::Big(n)) => {
            enc_n(n, out);
            marks.push((out.len() - 1, 1, Mark::NumEnd));
        }
        (Sch::Z, Val::Big(n)) => {
            enc_z(n, out);
            marks.push((out.len() - 1, 1, Mark::NumEnd));
        }
        (Sch::Bytes | Sch::Str | Sch::FixBytes(_), Val::Bytes(b)) => out.extend_from_slice(b),
        (Sch::Opt(t), Val::Opt(o)) => {
            marks.push((out.len(), 1, Mark::Token));
            match o {
                None => out.push(0),
                Some(v) => {
                    out.push(0xff);
                    enc(t, v, out, marks)
                }
            }
        }
        (Sch::Nullable(t), Val::Opt(o)) => {
            if let Some(v) = o {
                enc(t, v, out, marks)
            }
        }
        (Sch::Dyn(p, t), v) => {
            let at = out.len();
            marks.push((at, p.width(), Mark::Prefix));
            out.resize(at + p.width(), 0);
            enc(t, v, out, marks);
            let len = out.len() - at - p.width();
            assert!(len as u64 <= p.max(), "harness: payload too long for its prefix");
            let mut l = vec![];
            be(len as i128, p.width(), &mut l);
            out[at..at + p.width()].copy_from_slice(&l);
        }
        (Sch::VPad(t, _), v) => enc(t, v, out, marks),
        (Sch::Pad(t, n), v) => {
            enc(t, v, out, marks);
            if *n > 0 {
                marks.push((out.len(), *n, Mark::Pad));
            }
            out.resize(out.len() + n, 0);
        }
        (Sch::Seq(t) | Sch::FixSeq(t, _) | Sch::LimSeq(t, _), Val::List(vs)) => {
            for v in vs {
                enc(t, v, out, marks)
            }
        }
        (Sch::Enum(w, vars), Val::Var(i, fs)) => {
            let (tag, tys, _) = &vars[*i];
            marks.push((out.len(), *w, Mark::Tag));
            be(*tag as i128, *w, out);
            for (t, v) in tys.iter().zip(fs) {
                enc(t, v, out, marks)
            }
        }
        (Sch::Rec(tys), Val::List(fs)) => {
            assert_eq!(tys.len(), fs.len());
            for (t, v) in tys.iter().zip(fs) {
                enc(t, v, out, marks)
            }
        }
        (Sch::Lazy(f), v) => enc(&f(), v, out, marks),
        (s, v) => panic!("harness: value {v:?} does not fit schema {s:?}"),
    }
}
pub fn encode(s: &Sch, v: &Val) -> Vec<u8> {
    let mut o = vec![];
    enc(s, v, &mut o, &mut vec![]);
    o
}
pub fn be(i: i128, w: usize, out: &mut Vec<u8>) {
    for k in (0..w).rev() {
        out.push(((i >> (8 * k)) & 0xff) as u8);
    }
}
pub fn enc_n(n: &BigInt, out: &mut Vec<u8>) {
    let bits = n.magnitude();
    let mut x: BigUint = bits.clone();
    loop {
        let low = low_bits(&x, 7);
        x >>= 7u32;
        if x == BigUint::from(0u8) {
            out.push(low);
            return;
        }
        out.push(low | 0x80);
    }
}
pub fn enc_z(n: &BigInt, out: &mut Vec<u8>) {
    let mut x: BigUint = n.magnitude().clone();
    let sign = if n.sign() == Sign::Minus { 0x40 } else { 0 };
    let mut first = true;
    loop {
        let w = if first { 6 } else { 7 };
        let mut b = low_bits(&x, w);
        x >>= w;
        if first {
            b |= sign;
        }
        first = false;
        if x == BigUint::from(0u8) {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}
fn low_bits(x: &BigUint, w: u32) -> u8 {
    let m = (1u8 << w) - 1;
    x.to_bytes_le()[0] & m
}

// ---------------------------------------------------------------- decoding

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Rej {
    /// not enough bytes in the buffer or window for a read
    Short,
    BadBool,
    BadTag,
    Range,
    Float,
    /// prefix out of its own range
    PrefixRange,
    /// prefix longer than the window
    PrefixTooLong,
    Residue,
    Count,
    Unterminated,
    Padding,
    /// fewer bytes than the reserved suffix
    NoRoomForSuffix,
}

/// The true quantities behind a rejection.
#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    Read { need: usize, left: usize },
    Bool(u8),
    Tag { tag: u64, width: usize, tags: Vec<u64> },
    Int { wire: i128, min: i128, max: i128 },
    Float { val: f64, min: f64, max: f64 },
    PrefixRange { val: u64, max: u64 },
    Open { want: usize, left: usize },
    Residue(usize),
    Exact { exact: usize, actual: usize },
    Over { limit: usize },
    NonTerm(Vec<u8>),
    Padding(Vec<u8>),
    NoRoom { need: usize, left: usize },
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Opts {
    pub check_padding: bool,
}
pub fn opts() -> Opts {
    Opts { check_padding: cfg!(feature = "check_padding") }
}

pub struct Dec<'a> {
    pub buf: &'a [u8],
    pub pos: usize,
    pub end: usize,
    pub noncanon: bool,
    pub opts: Opts,
    pub fail: Option<Fail>,
}
pub fn decode(s: &Sch, buf: &[u8]) -> Result<(Val, usize, bool), Rej> {
    decode_opts(s, buf, opts())
}
pub fn decode_opts(s: &Sch, buf: &[u8], o: Opts) -> Result<(Val, usize, bool), Rej> {
    let mut d = Dec { buf, pos: 0, end: buf.len(), noncanon: false, opts: o, fail: None };
    let v = d.go(s)?;
    Ok((v, d.pos, d.noncanon))
}
/// Why the specification rejects this input.
pub fn decode_fail(s: &Sch, buf: &[u8], o: Opts) -> Option<(Rej, Fail)> {
    let mut d = Dec { buf, pos: 0, end: buf.len(), noncanon: false, opts: o, fail: None };
    match d.go(s) {
        Ok(_) => None,
        Err(r) => Some((r, d.fail.expect("harness: rejection without its quantities"))),
    }
}
impl Dec<'_> {
    fn no<T>(&mut self, r: Rej, f: Fail) -> Result<T, Rej> {
        self.fail = Some(f);
        Err(r)
    }
    pub fn rem(&self) -> usize {
        self.end - self.pos
    }
    fn take(&mut self, n: usize) -> Result<&[u8], Rej> {
        if n > self.rem() {
            let left = self.rem();
            return self.no(Rej::Short, Fail::Read { need: n, left });
        }
        self.pos += n;
        Ok(&self.buf[self.pos - n..self.pos])
    }
    fn uint(&mut self, w: usize) -> Result<u64, Rej> {
        Ok(self.take(w)?.iter().fold(0u64, |a, b| (a << 8) | *b as u64))
    }
    fn int(&mut self, w: usize, signed: bool) -> Result<i128, Rej> {
        let u = self.uint(w)? as i128;
        Ok(if signed && u >= 1i128 << (8 * w - 1) { u - (1i128 << (8 * w)) } else { u })
    }
    fn groups(&mut self) -> Result<Vec<u8>, Rej> {
        let mut v = vec![];
        loop {
            match self.take(1) {
                Err(_) => return self.no(Rej::Unterminated, Fail::NonTerm(v)),
                Ok(b) => {
                    let b = b[0];
                    v.push(b);
                    if b & 0x80 == 0 {
                        return Ok(v);
                    }
                }
            }
        }
    }
    pub fn go(&mut self, s: &Sch) -> Result<Val, Rej> {
        Ok(match s {
            Sch::Unit => Val::Unit,
            Sch::Bool => match self.take(1)?[0] {
                0 => Val::Bool(false),
                0xff => Val::Bool(true),
                b => return self.no(Rej::BadBool, Fail::Bool(b)),
            },
            Sch::Int(w, sg) => Val::Int(self.int(*w, *sg)?),
            Sch::F64 => Val::F(self.uint(8)?),
            Sch::RFloat(lo, hi) => {
                let b = self.uint(8)?;
                let f = f64::from_bits(b);
                if f.is_nan() || f < *lo || f > *hi {
                    return self.no(Rej::Float, Fail::Float { val: f, min: *lo, max: *hi });
                }
                Val::F(b)
            }
            Sch::RInt(b, lo, hi) => {
                let u = self.int(b.width(), b.signed())?;
                let v = if *lo > 0 {
                    if u < 0 {
                        return self.no(Rej::Range, Fail::Int { wire: u, min: *lo as i128, max: *hi as i128 });
                    }
                    u + *lo as i128
                } else {
                    u
                };
                if v < *lo as i128 || v > *hi as i128 {
                    return self.no(Rej::Range, Fail::Int { wire: u, min: *lo as i128, max: *hi as i128 });
                }
                Val::Int(v)
            }
            Sch::N => {
                let g = self.groups()?;
                if g.len() > 1 && *g.last().unwrap() == 0 {
                    self.noncanon = true;
                }
                Val::Big(BigInt::from_biguint(Sign::Plus, assemble(&g, 0)))
            }
            Sch::Z => {
                let g = self.groups()?;
                if g.len() > 1 && *g.last().unwrap() == 0 {
                    self.noncanon = true;
                }
                let neg = g[0] & 0x40 != 0;
                let m = assemble(&g, 1);
                if neg && m == BigUint::from(0u8) {
                    self.noncanon = true;
                }
                Val::Big(BigInt::from_biguint(if neg { Sign::Minus } else { Sign::Plus }, m))
            }
            Sch::Bytes => {
                let n = self.rem();
                Val::Bytes(self.take(n)?.to_vec())
            }
            Sch::Str => {
                let n = self.rem();
                let b = self.take(n)?.to_vec();
                match String::from_utf8(b) {
                    Ok(s) => Val::Bytes(s.into_bytes()),
                    Err(e) => {
                        self.noncanon = true;
                        Val::Bytes(String::from_utf8_lossy(e.as_bytes()).into_owned().into_bytes())
                    }
                }
            }
            Sch::FixBytes(n) => Val::Bytes(self.take(*n)?.to_vec()),
            Sch::Opt(t) => match self.take(1)?[0] {
                0 => Val::Opt(None),
                0xff => Val::Opt(Some(Box::new(self.go(t)?))),
                b => return self.no(Rej::BadTag, Fail::Tag { tag: b as u64, width: 1, tags: vec![0, 0xff] }),
            },
            Sch::Nullable(t) => {
                if self.rem() == 0 {
                    Val::Opt(None)
                } else {
                    Val::Opt(Some(Box::new(self.go(t)?)))
                }
            }
            Sch::Dyn(p, t) => {
                let raw = self.uint(p.width())?;
                if raw > p.max() {
                    return self.no(Rej::PrefixRange, Fail::PrefixRange { val: raw, max: p.max() });
                }
                if raw > self.rem() as u64 {
                    let left = self.rem();
                    return self.no(Rej::PrefixTooLong, Fail::Open { want: raw as usize, left });
                }
                let outer = self.end;
                self.end = self.pos + raw as usize;
                let v = self.go(t)?;
                if self.pos != self.end {
                    let r = self.end - self.pos;
                    return self.no(Rej::Residue, Fail::Residue(r));
                }
                self.end = outer;
                v
            }
            Sch::VPad(t, n) => {
                if self.rem() < *n {
                    let left = self.rem();
                    return self.no(Rej::NoRoomForSuffix, Fail::NoRoom { need: *n, left });
                }
                let outer = self.end;
                self.end -= n;
                let v = self.go(t)?;
                if self.pos != self.end {
                    let r = self.end - self.pos;
                    return self.no(Rej::Residue, Fail::Residue(r));
                }
                self.end = outer;
                v
            }
            Sch::Pad(t, n) => {
                let v = self.go(t)?;
                let strict = self.opts.check_padding;
                let p = self.take(*n)?;
                if p.iter().any(|b| *b != 0) {
                    if strict {
                        let p = p.to_vec();
                        return self.no(Rej::Padding, Fail::Padding(p));
                    }
                    self.noncanon = true;
                }
                v
            }
            Sch::Seq(t) => {
                let mut vs = vec![];
                while self.rem() > 0 {
                    let left = self.rem();
                    let v = self.go(t)?;
                    if self.rem() == left {
                        // elements that take nothing can never use up what is left
                        return self.no(Rej::Residue, Fail::Residue(left));
                    }
                    vs.push(v);
                }
                Val::List(vs)
            }
            Sch::LimSeq(t, n) => {
                let mut vs = vec![];
                while self.rem() > 0 {
                    let v = self.go(t)?;
                    if vs.len() == *n {
                        return self.no(Rej::Count, Fail::Over { limit: *n });
                    }
                    vs.push(v);
                }
                Val::List(vs)
            }
            Sch::FixSeq(t, n) => {
                let mut vs = vec![];
                while vs.len() < *n {
                    if self.rem() == 0 {
                        return self.no(Rej::Count, Fail::Exact { exact: *n, actual: vs.len() });
                    }
                    vs.push(self.go(t)?);
                }
                Val::List(vs)
            }
            Sch::Enum(w, vars) => {
                let tag = self.uint(*w)?;
                match vars.iter().position(|v| v.0 == tag) {
                    None => return self.no(Rej::BadTag, Fail::Tag { tag, width: *w, tags: vars.iter().map(|v| v.0).collect() }),
                    Some(i) => Val::Var(i, vars[i].1.iter().map(|t| self.go(t)).collect::<Result<_, _>>()?),
                }
            }
            Sch::Rec(fs) => Val::List(fs.iter().map(|t| self.go(t)).collect::<Result<_, _>>()?),
            Sch::Lazy(f) => self.go(&f())?,
        })
    }
}
fn assemble(g: &[u8], signed: usize) -> BigUint {
    // most significant group first
    let mut x = BigUint::from(0u8);
    for (i, b) in g.iter().enumerate().rev() {
        if i == 0 && signed == 1 {
            x = (x << 6u32) + BigUint::from(b & 0x3f);
        } else {
            x = (x << 7u32) + BigUint::from(b & 0x7f);
        }
    }
    x
}

// ---------------------------------------------------------------- generators

pub fn gen_big(s: &mut Src, signed: bool) -> BigInt {
    let mag: BigUint = match s.weighted(&[3, 4, 4, 2]) {
        0 => BigUint::from(s.draw(300)),
        1 => {
            // around group boundaries 2^(6+7k), 2^(7k), 2^(8k)
            let k = s.range(0, 12);
            let e = match s.weighted(&[2, 2, 1]) {
                0 => 7 * k,
                1 => 6 + 7 * k,
                _ => 8 * k,
            };
            let x = BigUint::from(1u8) << e;
            let d = s.draw(3);
            if d == 0 && x > BigUint::from(0u8) {
                x - 1u8
            } else {
                x + BigUint::from(d - 1.min(d))
            }
        }
        2 => {
            let n = s.range(0, 20);
            BigUint::from_bytes_le(&s.bytes(n))
        }
        _ => {
            let n = s.range(0, 120);
            BigUint::from_bytes_le(&s.bytes(n))
        }
    };
    let neg = signed && s.coin();
    BigInt::from_biguint(if neg { Sign::Minus } else { Sign::Plus }, mag)
}
/// Seldom, thousands of bits; now and then, tens of thousands.
pub fn gen_huge(s: &mut Src, signed: bool) -> BigInt {
    if !s.chance(1, 200) {
        return gen_big(s, signed);
    }
    let n = match s.weighted(&[80, 40, 1]) {
        0 => s.range(120, 2000),
        1 => s.range(2000, 10000),
        _ => *s.pick(&[16384usize, 32768, 57344, 65536]) + s.range(0, 2) - 1,
    };
    let mag = BigUint::from_bytes_le(&s.stretch(n));
    let neg = signed && s.coin();
    BigInt::from_biguint(if neg { Sign::Minus } else { Sign::Plus }, mag)
}

pub fn gen_f64(s: &mut Src) -> f64 {
    match s.weighted(&[3, 3, 3]) {
        0 => *s.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, f64::MIN, f64::MAX, f64::EPSILON, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE, 1e-310, 100.0, -100.0]),
        1 => f64::from_bits(s.draw(u64::MAX)),
        _ => (s.draw(4000) as f64 - 2000.0) / 7.0,
    }
}
pub fn gen_f64_in(s: &mut Src, lo: f64, hi: f64) -> f64 {
    match s.weighted(&[2, 2, 3]) {
        0 => lo,
        1 => hi,
        _ => {
            for _ in 0..4 {
                let f = gen_f64(s);
                if f >= lo && f <= hi {
                    return f;
                }
            }
            let t = s.draw(1000) as f64 / 1000.0;
            let (l, h) = (lo.max(-1e300), hi.min(1e300));
            (l + (h - l) * t).clamp(lo, hi)
        }
    }
}
pub fn gen_text(s: &mut Src, n: usize) -> String {
    if n == 0 {
        return String::new();
    }
    // what somebody may want to trim, escape or normalise away
    const ODD: &[&str] = &["\u{feff}", "\0", " ", "\n", "\r\n", "\t", "\u{a0}", "\u{2028}", "\u{200b}", "0x", "\"", "\\", "e\u{301}", "\u{e9}", "\u{1f}", "\u{85}", "\u{fffe}", "\u{d7ff}", "\u{e000}", "%", "{}", "\u{202e}"];
    let shape = s.weighted(&[10, 1, 1, 1]);
    let head = if shape & 1 == 1 { *s.pick(ODD) } else { "" };
    let tail = if shape & 2 == 2 { *s.pick(ODD) } else { "" };
    let extra = head.chars().count() + tail.chars().count();
    head.chars().chain(plain_text(s, n.saturating_sub(extra)).chars()).chain(tail.chars()).take(n).collect()
}
fn plain_text(s: &mut Src, n: usize) -> String {
    if n > 400 {
        // plain, mixed, or characters of one width that straddle any block
        let shape = s.draw(4);
        return s
            .stretch(n)
            .iter()
            .map(|b| match shape {
                0 | 1 => char::from(b & 0x7f),
                2 => *['a', 'é', 'ℕ', '😀'].get(*b as usize & 7).unwrap_or(&'z'),
                3 => 'é',
                _ => '😀',
            })
            .collect();
    }
    (0..n)
        .map(|_| match s.weighted(&[5, 1, 1]) {
            0 => char::from_u32(0x20 + s.draw(0x5e) as u32).unwrap(),
            1 => *s.pick(&['\0', '\n', '"', '\\', '\u{7f}', 'é', 'ß', '\u{fffd}', 'ℕ', '😀', '\u{10ffff}']),
            _ => char::from_u32(s.draw(0x2000) as u32).unwrap_or('x'),
        })
        .collect()
}

const LONG: usize = 140_000;
const GIANT: usize = 2_200_000;
/// How many bytes a value may take, roughly: seldom many.
pub fn room(s: &mut Src, usual: usize) -> usize {
    match s.weighted(&[24000, 600, 100, 3]) {
        0 => usual,
        1 => 6000,
        2 => LONG,
        _ => GIANT,
    }
}
fn gen_len(s: &mut Src, budget: usize) -> usize {
    match budget {
        GIANT.. if s.chance(3, 4) => s.giant_len(),
        LONG.. if s.coin() => s.long_len(),
        _ => s.small_len(),
    }
}
/// Generates a value of the schema whose encoding fits every enclosing prefix.
pub fn gen_val(s: &mut Src, t: &Sch, budget: usize) -> Val {
    match t {
        Sch::Unit => Val::Unit,
        Sch::Bool => Val::Bool(s.coin()),
        Sch::Int(w, sg) => {
            let b = 8 * *w as u32;
            let (lo, hi) = if *sg { (-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1) } else { (0, (1i128 << b) - 1) };
            Val::Int(s.int(lo, hi))
        }
        Sch::F64 => Val::F(gen_f64(s).to_bits()),
        Sch::RFloat(lo, hi) => Val::F(gen_f64_in(s, *lo, *hi).to_bits()),
        Sch::RInt(_, lo, hi) => Val::Int(s.int(*lo as i128, *hi as i128)),
        Sch::N => Val::Big(if budget >= 200 { gen_huge(s, false) } else { gen_big(s, false) }),
        Sch::Z => Val::Big(if budget >= 200 { gen_huge(s, true) } else { gen_big(s, true) }),
        Sch::Bytes => {
            let n = gen_len(s, budget);
            let n = n.min(budget);
            Val::Bytes(s.bytes(n))
        }
        Sch::Str => {
            let n = gen_len(s, budget);
            let n = n.min(budget / 4 + 1);
            Val::Bytes(gen_text(s, n).into_bytes())
        }
        Sch::FixBytes(n) => Val::Bytes(s.bytes(*n)),
        Sch::Opt(t) | Sch::Nullable(t) => Val::Opt(if s.chance(3, 4) { Some(Box::new(gen_val(s, t, budget))) } else { None }),
        Sch::Dyn(p, inner) => {
            let lim = p.max() as usize;
            for k in 0..4 {
                let v = gen_val(s, inner, (budget >> k).min(lim));
                if encode_len(inner, &v).map_or(false, |l| l <= lim) {
                    return v;
                }
            }
            // simplest value always fits in the schemas we use
            gen_val(&mut Src::preset(vec![]), inner, 0)
        }
        Sch::VPad(t, _) | Sch::Pad(t, _) => gen_val(s, t, budget),
        // a number of elements that take nothing cannot be recovered
        Sch::Seq(t) | Sch::LimSeq(t, _) if t.fixed_width() == Some(0) => Val::List(vec![]),
        Sch::Seq(t) if budget >= LONG && s.coin() => {
            let n = *s.pick(&[1000usize, 1024, 4096, 65536]) + s.range(0, 2) - 1;
            Val::List((0..n).map(|_| gen_val(s, t, 2)).collect())
        }
        Sch::Seq(t) => {
            let n = match s.weighted(&[40, 12, 1]) {
                0 => s.range(0, 5),
                1 => s.range(0, 20),
                _ => *s.pick(&[32usize, 64, 128, 256]) + s.range(0, 2) - 1,
            };
            let n = n.min(budget);
            Val::List((0..n).map(|_| gen_val(s, t, budget / (n + 1))).collect())
        }
        Sch::LimSeq(t, m) if budget >= LONG && *m > 300 && s.coin() => {
            let n = *m - s.range(0, 1);
            Val::List((0..n).map(|_| gen_val(s, t, 2)).collect())
        }
        Sch::LimSeq(t, m) => {
            let n = match s.weighted(&[12, 4, 1]) {
                0 => s.range(0, (*m).min(12)),
                1 => (*m).min(40),
                _ => (*m - s.range(0, 1).min(*m)).min(300),
            };
            Val::List((0..n).map(|_| gen_val(s, t, budget / (n + 1))).collect())
        }
        Sch::FixSeq(t, n) => Val::List((0..*n).map(|_| gen_val(s, t, budget / (n + 1))).collect()),
        Sch::Enum(_, vars) => {
            let i = s.draw(vars.len() as u64 - 1) as usize;
            Val::Var(i, vars[i].1.iter().map(|t| gen_val(s, t, budget / 2)).collect())
        }
        Sch::Rec(fs) => Val::List(fs.iter().map(|t| gen_val(s, t, budget / 2)).collect()),
        Sch::Lazy(f) => {
            if budget < 4 {
                gen_val(&mut Src::preset(vec![]), &f(), 0)
            } else {
                gen_val(s, &f(), budget / 2)
            }
        }
    }
}
/// Length of the reference encoding, or None when an inner prefix overflows.
pub fn encode_len(s: &Sch, v: &Val) -> Option<usize> {
    Some(match (s, v) {
        (Sch::Dyn(p, t), v) => {
            let n = encode_len(t, v)?;
            if n as u64 > p.max() {
                return None;
            }
            n + p.width()
        }
        (Sch::VPad(t, _), v) => encode_len(t, v)?,
        (Sch::Pad(t, n), v) => encode_len(t, v)? + n,
        (Sch::Opt(t), Val::Opt(o)) => match o {
            None => 1,
            Some(v) => 1 + encode_len(t, v)?,
        },
        (Sch::Nullable(t), Val::Opt(o)) => match o {
            None => 0,
            Some(v) => encode_len(t, v)?,
        },
        (Sch::Seq(t) | Sch::FixSeq(t, _) | Sch::LimSeq(t, _), Val::List(vs)) => {
            let mut n = 0;
            for v in vs {
                n += encode_len(t, v)?;
            }
            n
        }
        (Sch::Enum(w, vars), Val::Var(i, fs)) => {
            let mut n = *w;
            for (t, v) in vars[*i].1.iter().zip(fs) {
                n += encode_len(t, v)?;
            }
            n
        }
        (Sch::Rec(ts), Val::List(fs)) => {
            let mut n = 0;
            for (t, v) in ts.iter().zip(fs) {
                n += encode_len(t, v)?;
            }
            n
        }
        (Sch::Lazy(f), v) => encode_len(&f(), v)?,
        (s, v) => encode(s, v).len(),
    })
}

/// Bytes that must follow this value in its window for its format to be
/// satisfied (suffix reservation), where they can follow it at all.
pub fn reserve_of(s: &Sch, v: &Val) -> usize {
    match (s, v) {
        (Sch::VPad(t, n), x) => n + reserve_of(t, x),
        (Sch::Opt(t) | Sch::Nullable(t), Val::Opt(Some(x))) => reserve_of(t, x),
        (Sch::Rec(ts), Val::List(fs)) if !fs.is_empty() => reserve_of(ts.last().unwrap(), fs.last().unwrap()),
        (Sch::Enum(_, vars), Val::Var(i, fs)) if !fs.is_empty() => reserve_of(vars[*i].1.last().unwrap(), fs.last().unwrap()),
        _ => 0,
    }
}
/// Whether the format lets the value be recovered from its encoding (followed
/// by the bytes it reserves): a nullable holding an empty encoding cannot be
/// told from an absent one, and a suffix reservation is only satisfiable where
/// bytes can follow it inside the same extent.
pub fn recoverable(s: &Sch, v: &Val) -> bool {
    let mut b = encode(s, v);
    let n = b.len();
    b.resize(n + reserve_of(s, v), 0);
    matches!(decode(s, &b), Ok((w, m, _)) if w == *v && m == n)
}

/// What kind of input `gen_input` made.
pub fn gen_input(s: &mut Src, t: &Sch) -> (Vec<u8>, &'static str) {
    match s.weighted(&[3, 3, 10, 3, 2]) {
        // arbitrary bytes
        0 => {
            let n = s.small_len();
            (s.bytes(n), "input: arbitrary")
        }
        1 => {
            // valid, maybe followed by more
            let room = room(s, 200);
            let v = gen_val(s, t, room);
            let mut b = encode(t, &v);
            let extra = if s.coin() { s.range(0, 4) } else { t.reserve() };
            let sfx = s.bytes(extra);
            b.extend(sfx);
            (b, "input: valid (+suffix)")
        }
        2 => {
            // valid with structural tampering
            let v = gen_val(s, t, 120);
            let mut marks = vec![];
            let mut b = vec![];
            enc(t, &v, &mut b, &mut marks);
            b.resize(b.len() + t.reserve(), 0);
            let n = s.range(1, 2);
            for _ in 0..n {
                if marks.is_empty() {
                    mutate(s, &mut b);
                    continue;
                }
                let (at, w, k) = *s.pick(&marks);
                if at + w > b.len() {
                    continue;
                }
                tamper(s, &mut b, at, w, k);
            }
            (b, "input: tampered structure")
        }
        3 => {
            let v = gen_val(s, t, 120);
            let mut b = encode(t, &v);
            b.resize(b.len() + t.reserve(), 0);
            let n = s.range(1, 3);
            for _ in 0..n {
                mutate(s, &mut b);
            }
            (b, "input: mutated bytes")
        }
        _ => {
            // valid, truncated
            let v = gen_val(s, t, 120);
            let mut b = encode(t, &v);
            b.resize(b.len() + t.reserve(), 0);
            let n = s.range(0, b.len());
            let keep = if s.coin() { b.len() - n } else { b.len().saturating_sub(1) };
            b.truncate(keep);
            (b, "input: truncated")
        }
    }
}
fn tamper(s: &mut Src, b: &mut Vec<u8>, at: usize, w: usize, k: Mark) {
    let cur = b[at..at + w].iter().take(8).fold(0u64, |a, x| (a << 8) | *x as u64);
    let rest = (b.len() - at - w) as u64;
    let full = if w >= 8 { u64::MAX } else { (1u64 << (8 * w)) - 1 };
    let new = match k {
        // a payload consistently made longer or shorter
        Mark::Prefix if cur <= rest && s.chance(1, 4) => {
            let cut = at + w + cur as usize;
            if s.coin() && cur > 0 {
                let n = s.range(1, 3).min(cur as usize);
                b.drain(cut - n..cut);
                cur - n as u64
            } else {
                let n = s.range(1, 3);
                let more = s.bytes(n);
                b.splice(cut..cut, more);
                cur + n as u64
            }
        }
        Mark::Prefix => match s.weighted(&[3, 3, 2, 2, 2, 1]) {
            0 => cur.wrapping_add(1 + s.draw(2)),
            1 => cur.wrapping_sub(1 + s.draw(2)),
            2 => rest,
            3 => rest + 1 + s.draw(1),
            4 => *s.pick(&[full, full >> 1, (full >> 1) + 1, (full >> 2) + 1, full >> 2, 0]),
            _ => s.draw(full),
        },
        Mark::Tag | Mark::Token => match s.weighted(&[3, 2, 2]) {
            0 => cur.wrapping_add(1),
            1 => *s.pick(&[0, 1, 2, 0x7f, 0x80, 0xfe, 0xff, 0x100, full]),
            _ => s.draw(full),
        },
        Mark::Bounded => match s.weighted(&[2, 2, 2, 2]) {
            0 => cur.wrapping_add(1),
            1 => cur.wrapping_sub(1),
            2 => *s.pick(&[0, full, full >> 1, (full >> 1) + 1, (full >> 2) + 1, 0x7ff0_0000_0000_0000, 0x7ff8_0000_0000_0000, 0xfff0_0000_0000_0000]),
            _ => s.draw(full),
        },
        Mark::Pad => {
            let i = s.range(0, w - 1);
            b[at + i] = s.byte();
            return;
        }
        Mark::NumEnd => {
            match s.weighted(&[2, 2, 1]) {
                0 => {
                    // superfluous zero group
                    b[at] |= 0x80;
                    b.insert(at + 1, 0);
                }
                1 => b[at] |= 0x80,
                _ => b[at] ^= 0x40,
            }
            return;
        }
    };
    let mut x = vec![];
    be(new as i128, w, &mut x);
    b[at..at + w].copy_from_slice(&x);
}
fn mutate(s: &mut Src, b: &mut Vec<u8>) {
    if b.is_empty() {
        b.push(s.byte());
        return;
    }
    let i = s.range(0, b.len() - 1);
    match s.weighted(&[4, 3, 2, 2]) {
        0 => b[i] = s.byte(),
        1 => b[i] = b[i].wrapping_add(1),
        2 => {
            let x = s.byte();
            b.insert(i, x)
        }
        _ => {
            b.remove(i);
        }
    }
}
