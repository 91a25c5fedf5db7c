//! C15: exact-length and limited-length sequences.
use crate::nums::dec;
use std::convert::TryFrom;
use std::fmt::Debug;
use std::rc::Rc;
use tedium::parse::buffer::VecBuffer;
use tedium::*;
use vcore::engine::*;
use vcore::{ensure, ensure_eq};

/// An element whose liveness can be counted.
#[derive(Clone, Debug)]
pub struct El(u32, Rc<()>);
impl PartialEq for El {
    fn eq(&self, o: &El) -> bool {
        self.0 == o.0
    }
}
impl PartialOrd for El {
    fn partial_cmp(&self, o: &El) -> Option<std::cmp::Ordering> {
        self.0.partial_cmp(&o.0)
    }
}

pub trait Bounded<T>: Sized + Clone + PartialEq + Debug + Default + Extend<T> + std::iter::FromIterator<T> {
    const CAP: usize;
    const EXACT: bool;
    fn fresh() -> Self;
    fn slice(&self) -> &[T];
    fn slice_mut(&mut self) -> &mut [T];
    fn from_slice(x: &[T]) -> Result<Self, String>;
    fn from_vector(x: Vec<T>) -> Result<Self, String>;
    /// A conversion that panics instead of failing, if there is one.
    fn force_vector(x: Vec<T>) -> Option<Result<Self, String>>;
    fn vector(self) -> Vec<T>;
    fn vector2(self) -> Vec<T>;
    fn by_ref(&self) -> Vec<&T>;
    fn by_value(self) -> Vec<T>;
    fn order(&self, o: &Self) -> Option<std::cmp::Ordering>;
}
macro_rules! bounded {
    ($t:ident, $exact:expr, $force:expr, $v2:ident) => {
        impl<T: Clone + Debug + PartialEq + PartialOrd, const W: usize> Bounded<T> for $t<T, W> {
            const CAP: usize = W;
            const EXACT: bool = $exact;
            fn fresh() -> Self {
                Self::new()
            }
            fn slice(&self) -> &[T] {
                &*self
            }
            fn slice_mut(&mut self) -> &mut [T] {
                &mut *self
            }
            fn from_slice(x: &[T]) -> Result<Self, String> {
                Self::try_from(x).map_err(|e| format!("{e:?}"))
            }
            fn from_vector(x: Vec<T>) -> Result<Self, String> {
                Self::try_from(x).map_err(|e| format!("{e:?}"))
            }
            fn force_vector(x: Vec<T>) -> Option<Result<Self, String>> {
                let f: fn(Vec<T>) -> Option<Result<Self, String>> = $force;
                f(x)
            }
            fn vector(self) -> Vec<T> {
                Vec::from(self)
            }
            fn vector2(self) -> Vec<T> {
                $v2!(self)
            }
            fn by_ref(&self) -> Vec<&T> {
                let mut out = vec![];
                for x in self {
                    out.push(x);
                }
                out
            }
            fn by_value(self) -> Vec<T> {
                let mut out = vec![];
                for x in self {
                    out.push(x);
                }
                out
            }
            fn order(&self, o: &Self) -> Option<std::cmp::Ordering> {
                self.partial_cmp(o)
            }
        }
    };
}
macro_rules! via_from {
    ($x:expr) => {
        $x.into()
    };
}
macro_rules! via_vec {
    ($x:expr) => {
        $x.into_vec()
    };
}
bounded!(FixSeq, true, |_| None, via_from);
bounded!(LimSeq, false, |x| Some(guard(|| Self::from_vec(x))), via_vec);

/// Iterators of various shapes over the same items.
fn shaped<'a>(shape: u64, items: Vec<El>) -> Box<dyn Iterator<Item = El> + 'a> {
    match shape {
        0 => Box::new(items.into_iter()),
        1 => Box::new(items.into_iter().filter(|_| true)),
        2 => Box::new(items.into_iter().rev().collect::<Vec<_>>().into_iter().rev()),
        5 => {
            // has more to give if it is asked again after its end
            struct Again(std::vec::IntoIter<El>, Option<El>, bool);
            impl Iterator for Again {
                type Item = El;
                fn next(&mut self) -> Option<El> {
                    match self.0.next() {
                        Some(x) => Some(x),
                        None if self.2 => self.1.clone(),
                        None => {
                            self.2 = true;
                            None
                        }
                    }
                }
            }
            let more = items.first().cloned();
            Box::new(Again(items.into_iter(), more, false))
        }
        3 => {
            // claims nothing at all about its length
            struct Shy(std::vec::IntoIter<El>);
            impl Iterator for Shy {
                type Item = El;
                fn next(&mut self) -> Option<El> {
                    self.0.next()
                }
                fn size_hint(&self) -> (usize, Option<usize>) {
                    (0, None)
                }
            }
            Box::new(Shy(items.into_iter()))
        }
        _ => {
            let n = items.len() / 2;
            let (a, b) = (items[..n].to_vec().roomy(), items[n..].to_vec().roomy());
            Box::new(a.into_iter().chain(b))
        }
    }
}
struct Maker {
    next: u32,
    live: Rc<()>,
}
impl Maker {
    fn make(&mut self, n: usize) -> Vec<El> {
        (0..n)
            .map(|_| {
                self.next += 1;
                El(self.next, self.live.clone())
            })
            .collect::<Vec<_>>()
            .roomy()
    }
}
fn nums(x: &[El]) -> Vec<u32> {
    x.iter().map(|e| e.0).collect()
}
fn agrees<S: Bounded<El>>(s: &S, model: &[u32], live: &Rc<()>, what: &str) -> R {
    ensure_eq!(nums(s.slice()), model.to_vec(), "contents after {what}");
    ensure_eq!(s.slice().len(), model.len(), "length after {what}");
    ensure!(model.len() <= S::CAP, "harness: model over its bound");
    ensure_eq!(s.by_ref().into_iter().map(|e| e.0).collect::<Vec<_>>(), model.to_vec(), "iteration after {what}");
    ensure_eq!(Rc::strong_count(live), 2 + model.len(), "live elements after {what}");
    Ok(())
}
/// What a narrow counter does not see.
fn far(s: &mut Src) -> usize {
    if s.chance(1, 12) {
        65536
    } else {
        256 * s.range(1, 2)
    }
}
pub fn history<S: Bounded<El>>(cx: &mut Cx) -> R {
    let cap = S::CAP;
    let live = Rc::new(());
    let mut mk = Maker { next: 0, live: live.clone() };
    let mut s = S::fresh();
    let mut model: Vec<u32> = vec![];
    agrees(&s, &model, &live, "new")?;
    let n = cx.s.range(1, 14);
    let mut log: Vec<String> = vec![];
    let (mut refused, mut grown) = (0, 0);
    let res = (|| -> R {
        for _ in 0..n {
            let room = cap - model.len();
            let k = match cx.s.weighted(&[50, 30, 30, 10, 2]) {
                4 => {
                    // a number whose low bits are those of one that fits
                    let low = cx.s.range(0, cap + 1);
                    low + far(&mut cx.s)
                }
                0 => cx.s.range(0, 3),
                1 => cx.s.range(0, room),
                2 => (room + cx.s.range(0, 2)).saturating_sub(cx.s.range(0, 1)),
                _ => cx.s.range(0, cap + 3),
            };
            let shape = cx.s.draw(5);
            let kind = cx.s.weighted(&[6, 2, 2, 2, 2, 1, 1, 2, 2, 1, 1]);
            match kind {
                0 => {
                    let items = mk.make(k);
                    let new = nums(&items);
                    log.push(format!("extend {k} ({shape})"));
                    let what = log.last().unwrap().clone();
                    let r = guard(|| s.extend(shaped(shape, items)));
                    if k <= room {
                        r.map_err(|e| format!("{what} with room for {room} panics: {e}"))?;
                        model.extend(new);
                        grown += (k > 0) as usize;
                    } else {
                        ensure!(r.is_err(), "{what} with room for {room} is not refused");
                        refused += 1;
                    }
                }
                1 => {
                    let items = mk.make(k);
                    let new = nums(&items);
                    log.push(format!("collect {k} ({shape})"));
                    let what = log.last().unwrap().clone();
                    let r = guard(|| shaped(shape, items).collect::<S>());
                    if k <= cap {
                        s = r.map_err(|e| format!("{what} panics: {e}"))?;
                        model = new;
                    } else {
                        ensure!(r.is_err(), "{what} is not refused");
                        refused += 1;
                    }
                }
                2 => {
                    let items = mk.make(k);
                    let new = nums(&items);
                    log.push(format!("from slice of {k}"));
                    let what = log.last().unwrap().clone();
                    let r = guard(|| S::from_slice(&items)).map_err(|e| format!("{what} panics: {e}"))?;
                    match r {
                        Ok(x) => {
                            ensure!(k <= cap, "{what} is not refused");
                            s = x;
                            model = new;
                        }
                        Err(e) => {
                            // refusing too few elements is an exact-length sequence's right
                            ensure!(k > cap || (S::EXACT && k < cap), "{what} is refused: {e}");
                            refused += 1;
                        }
                    }
                }
                3 => {
                    let items = mk.make(k);
                    let new = nums(&items);
                    log.push(format!("from vector of {k}"));
                    let what = log.last().unwrap().clone();
                    let r = guard(|| S::from_vector(items)).map_err(|e| format!("{what} panics: {e}"))?;
                    match r {
                        Ok(x) => {
                            ensure!(k <= cap, "{what} is not refused");
                            s = x;
                            model = new;
                        }
                        Err(e) => {
                            ensure!(k > cap, "{what} is refused: {e}");
                            refused += 1;
                        }
                    }
                }
                4 => {
                    let items = mk.make(k);
                    let new = nums(&items);
                    log.push(format!("from_vec of {k}"));
                    let what = log.last().unwrap().clone();
                    match S::force_vector(items) {
                        None => {}
                        Some(Ok(x)) => {
                            ensure!(k <= cap, "{what} is not refused");
                            s = x;
                            model = new;
                        }
                        Some(Err(e)) => {
                            ensure!(k > cap, "{what} panics: {e}");
                            refused += 1;
                        }
                    }
                }
                5 => {
                    log.push("into a vector and back".into());
                    let old = std::mem::take(&mut s);
                    let v = if cx.s.coin() { old.vector() } else { old.vector2() };
                    ensure_eq!(nums(&v), model, "into a vector");
                    s = S::from_vector(v)?;
                }
                6 => {
                    log.push("clone".into());
                    let c = s.clone();
                    ensure!(c == s, "a clone differs");
                    s = c;
                }
                7 => {
                    log.push("swap or change in place".into());
                    let m = s.slice_mut();
                    ensure_eq!(m.len(), model.len(), "mutable length");
                    if !model.is_empty() {
                        let (i, j) = (cx.s.range(0, model.len() - 1), cx.s.range(0, model.len() - 1));
                        m.swap(i, j);
                        model.swap(i, j);
                        m[i].0 += 1000;
                        model[i] += 1000;
                    }
                }
                8 => {
                    log.push("by value and back".into());
                    let old = std::mem::take(&mut s);
                    let v = old.by_value();
                    ensure_eq!(nums(&v), model, "by value");
                    s = v.into_iter().collect();
                }
                9 => {
                    // what was there stays, and what came before the panic may be there
                    let items = mk.make(k.min(cap + 3));
                    let given = nums(&items);
                    log.push(format!("extend {} and panic ({shape})", given.len()));
                    let what = log.last().unwrap().clone();
                    let fresh = cx.s.chance(1, 4);
                    let it = shaped(shape.min(4), items).chain(std::iter::once_with(|| panic!("no more")));
                    if fresh {
                        let r = guard(|| it.collect::<S>());
                        ensure!(r.is_err(), "{what}: collecting hides the panic");
                    } else {
                        let r = guard(|| s.extend(it));
                        ensure!(r.is_err(), "{what}: extending hides the panic");
                        let now = nums(s.slice());
                        ensure!(now.len() <= cap && now.starts_with(&model) && given.starts_with(&now[model.len()..]), "{what} makes {model:?} into {now:?}, given {given:?}");
                        model = now;
                    }
                    refused += 1;
                }
                _ => {
                    log.push("extend without end".into());
                    let x = mk.make(1).remove(0);
                    let r = guard(|| s.extend(std::iter::repeat(x)));
                    ensure!(r.is_err(), "an endless extension is not refused");
                    let x = mk.make(1).remove(0);
                    let r = guard(|| std::iter::repeat(x).collect::<S>());
                    ensure!(r.is_err(), "an endless collection is not refused");
                    refused += 1;
                }
            }
            agrees(&s, &model, &live, log.last().unwrap())?;
        }
        // comparison with a sequence made directly
        let direct: S = mk.make(model.len()).into_iter().zip(&model).map(|(mut e, v)| {
            e.0 = *v;
            e
        }).collect();
        ensure!(direct == s, "differs from a sequence made directly");
        ensure_eq!(direct.order(&s), Some(std::cmp::Ordering::Equal), "order");
        ensure_eq!(hash_len(&s), model.len(), "length");
        drop(direct);
        drop(s);
        ensure_eq!(Rc::strong_count(&live), 2, "live elements in the end");
        Ok(())
    })();
    cx.note(|| format!("bound {cap}: {}", log.join("; ")));
    if refused > 0 && grown > 0 {
        cx.nontrivial(&(cap, S::EXACT, log.join(";")));
    }
    cx.class(if refused > 0 { "with refusals" } else { "without refusals" });
    res
}
fn hash_len<S: Bounded<El>>(s: &S) -> usize {
    s.slice().iter().count()
}

/// Encoding and decoding with every number of elements around the bound.
pub fn wire<S, T>(cx: &mut Cx, make: fn(&mut Src) -> T) -> R
where
    S: Bounded<T> + Encode + Decode + Estimable,
    T: Encode + Decode + Clone + PartialEq + Debug,
{
    let k = match cx.s.weighted(&[30, 50, 10, 1]) {
        3 => {
            let low = (S::CAP + 1).saturating_sub(cx.s.range(0, 2));
            low + far(&mut cx.s)
        }
        0 => cx.s.range(0, S::CAP),
        1 => (S::CAP + cx.s.range(0, 4)).saturating_sub(2),
        _ => cx.s.range(0, 2 * S::CAP + 2),
    };
    let items: Vec<T> = (0..k).map(|_| make(&mut cx.s)).collect();
    let mut bytes = vec![];
    let mut ends = vec![0];
    for i in &items {
        bytes.extend(i.to_bytes());
        ends.push(bytes.len());
    }
    cx.note(|| format!("bound {}, {k} elements {items:?}", S::CAP));
    if k != S::CAP {
        cx.nontrivial(&(S::CAP, k, &bytes));
    }
    cx.class(match k.cmp(&S::CAP) {
        std::cmp::Ordering::Less => "fewer",
        std::cmp::Ordering::Equal => "just as many",
        _ => "more",
    });
    let good = if S::EXACT { k == S::CAP } else { k <= S::CAP };
    macro_rules! with {
        ($p:expr, $n:expr) => {{
            let mut p = $p;
            let got = guard(|| S::parse(&mut p)).map_err(|e| format!("{}: decoding panics: {e}", $n))?;
            match got {
                Ok(x) if S::EXACT => {
                    ensure!(k >= S::CAP, "{}: an exact-length sequence decodes from {k} elements", $n);
                    ensure_eq!(x.slice(), &items[..S::CAP], "{}: decoded elements", $n);
                    ensure_eq!(p.remainder(), bytes.len() - ends[S::CAP], "{}: bytes left", $n);
                }
                Ok(x) => {
                    ensure!(k <= S::CAP, "{}: a limited sequence decodes from {k} elements", $n);
                    ensure_eq!(x.slice(), &items[..], "{}: decoded elements", $n);
                    ensure_eq!(p.remainder(), 0, "{}: bytes left", $n);
                }
                Err(e) => ensure!(if S::EXACT { k < S::CAP } else { k > S::CAP }, "{}: {k} elements are refused: {e:?}", $n),
            }
        }};
    }
    with!(ByteParser::from_buffer(VecBuffer::from(bytes.clone().roomy())), "ByteParser");
    with!(SliceParser::from_buffer(tedium::parse::buffer::SliceBuffer::from(&bytes[..])), "SliceParser");
    with!(MemoParser::from_buffer(VecBuffer::from(bytes.clone().roomy())), "MemoParser");
    // in a window of just these elements
    let mut framed = (bytes.len() as u32).to_be_bytes().to_vec();
    framed.extend(&bytes);
    framed.extend([0xaa, 0xbb]);
    let got = guard(|| {
        let mut p = ByteParser::from_buffer(VecBuffer::from(framed.clone().roomy()));
        Dynamic::<u30, S>::parse(&mut p).map(|d| d.into_inner()).map_err(|e| format!("{e:?}"))
    })
    .map_err(|e| format!("in a window: decoding panics: {e}"))?;
    match got {
        Ok(x) => {
            ensure!(good, "in a window: {k} elements are accepted");
            ensure_eq!(x.slice(), &items[..], "in a window: decoded elements");
        }
        Err(e) => ensure!(!good, "in a window: {k} elements are refused: {e}"),
    }
    // encoding
    if k <= S::CAP {
        let s: S = items.iter().cloned().collect();
        let r = guard(|| s.encode::<StrictBuilder>().into_vec());
        if good {
            ensure_eq!(r.map_err(|e| format!("encoding panics: {e}"))?, bytes, "encoding");
            ensure_eq!(s.estimate(), bytes.len(), "estimate");
            let back = dec::<S>(&bytes)?;
            ensure!(back == s, "round trip");
        } else {
            ensure!(r.is_err(), "an exact-length sequence encodes with {k} elements");
        }
    }
    Ok(())
}
