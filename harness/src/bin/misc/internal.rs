//! C31, C32: what the `expose_internal` feature makes public (segmented
//! vectors, the offset tracker of the vector-based parsers), and C33: what
//! `serde_impls` adds.  Compiled only with those features.
use vcore::engine::*;
use vcore::{ensure, ensure_eq};

#[cfg(feature = "expose_internal")]
pub mod splits {
    use super::*;
    use std::fmt::Debug;
    use std::hash::Hash;
    use tedium::internal::SplitVec;

    /// The segments that are finished, and the one that is being written.
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Model<T> {
        done: Vec<Vec<T>>,
        open: Option<Vec<T>>,
    }
    impl<T: Clone> Model<T> {
        pub fn new() -> Self {
            Model { done: vec![], open: None }
        }
        fn write(&mut self, v: &[T]) {
            self.open.get_or_insert(vec![]).extend_from_slice(v)
        }
        fn split(&mut self) {
            self.done.extend(self.open.take())
        }
        fn split_force(&mut self) {
            let o = self.open.take().unwrap_or_default();
            self.done.push(o)
        }
        fn all(&self) -> Vec<Vec<T>> {
            self.done.iter().cloned().chain(self.open.clone()).collect()
        }
        fn flat(&self) -> Vec<T> {
            self.all().concat()
        }
    }

    pub trait Elem: Clone + Debug + Eq + Ord + Hash + Default + 'static {
        fn draw(s: &mut Src) -> Self;
        fn text(_: &SplitVec<Self>, _: &Model<Self>) -> R {
            Ok(())
        }
        fn buffer(_: SplitVec<Self>, _: &Model<Self>) -> R {
            Ok(())
        }
    }
    impl Elem for u8 {
        fn draw(s: &mut Src) -> u8 {
            s.byte()
        }
        fn text(v: &SplitVec<u8>, m: &Model<u8>) -> R {
            let want: String = m.all().iter().map(|g| g.iter().map(|b| format!("{b:02x}")).collect::<String>() + "|").collect();
            ensure_eq!(v.to_string(), format!("[|{want}]"), "displayed segments");
            Ok(())
        }
        fn buffer(v: SplitVec<u8>, m: &Model<u8>) -> R {
            use tedium::builder::memo::MemoBuffer;
            let b = MemoBuffer::from(v);
            let want: String = m.all().iter().map(|g| g.iter().map(|b| format!("{b:02x}")).collect::<String>() + "|").collect();
            ensure_eq!(b.to_string(), format!("[|{want}]"), "segments of the buffer");
            ensure_eq!(Vec::<u8>::from(b), m.flat(), "bytes of the buffer");
            Ok(())
        }
    }
    impl Elem for String {
        fn draw(s: &mut Src) -> String {
            let n = s.range(0, 3);
            (0..n).map(|_| *s.pick(&['a', '|', ']', 'é'])).collect()
        }
    }
    impl Elem for (u32, bool) {
        fn draw(s: &mut Src) -> Self {
            (s.draw(5) as u32, s.coin())
        }
    }

    fn elems<T: Elem>(s: &mut Src) -> Vec<T> {
        let n = match s.weighted(&[1600, 1600, 2400, 400, 1]) {
            0 => 0,
            1 => 1,
            2 => s.range(0, 6),
            3 => s.range(0, 300),
            _ => {
                let n = *s.pick(&crate::hist::BULK) + s.range(0, 2) - 1;
                let some: Vec<T> = (0..5).map(|_| T::draw(s)).collect();
                return some.iter().cycle().take(n).cloned().collect();
            }
        };
        (0..n).map(|_| T::draw(s)).collect()
    }
    fn groups<T: Elem>(s: &mut Src) -> Vec<Vec<T>> {
        let n = s.range(0, 5);
        (0..n).map(|_| elems(s)).collect()
    }

    /// Everything that can be observed without changing the vector.
    fn check<T: Elem>(v: &SplitVec<T>, m: &Model<T>, s: &mut Src) -> R {
        let (all, flat) = (m.all(), m.flat());
        ensure_eq!(v.len(), flat.len(), "length");
        ensure_eq!(*v.as_ref(), flat, "content");
        ensure_eq!(v.is_empty(), all.is_empty(), "emptiness");
        ensure_eq!(v.is_contiguous(), all.len() <= 1, "contiguity");
        ensure!(v.is_balanced(), "the segments do not add up to the content");
        let fwd: Vec<Vec<T>> = v.spans().map(|x| x.to_vec()).collect();
        ensure_eq!(fwd, all, "segments");
        let mut back: Vec<Vec<T>> = v.spans().rev().map(|x| x.to_vec()).collect();
        back.reverse();
        ensure_eq!(back, all, "segments taken from the end");
        // both ends at once, on a copy of an iterator that is already under way
        let (mut lo, mut hi) = (0, all.len());
        let mut it = v.spans();
        while lo < hi {
            if s.coin() {
                ensure_eq!(it.next().map(|x| x.to_vec()), Some(all[lo].clone()), "segment {lo}, from the front");
                lo += 1;
            } else {
                hi -= 1;
                ensure_eq!(it.next_back().map(|x| x.to_vec()), Some(all[hi].clone()), "segment {hi}, from the end");
            }
            if all.len() > 40 && (hi - lo) % (all.len() / 8) != 0 {
                continue;
            }
            let rest: Vec<Vec<T>> = it.clone().map(|x| x.to_vec()).collect();
            ensure_eq!(rest, all[lo..hi].to_vec(), "the segments that remain");
        }
        ensure!(it.next().is_none() && it.next_back().is_none(), "more segments than there are");
        T::text(v, m)?;
        let (dbg, mut at) = (format!("{v:?}"), 0);
        for g in &all {
            let t = format!("{g:?}");
            match dbg[at..].find(&t) {
                Some(i) => at += i + t.len(),
                None => return Err(format!("debug text {dbg} does not show {t} in its place")),
            }
        }
        Ok(())
    }

    /// One step; the same one on the vector and on the model.
    fn step<T: Elem>(s: &mut Src, v: &mut SplitVec<T>, m: &mut Model<T>, log: &mut Vec<String>, depth: u32) -> R {
        match s.weighted(&[4, 2, 2, 4, 3, 4, 3, if depth == 0 { 2 } else { 0 }, 2, 1, 1, 1]) {
            0 => {
                log.push("split".into());
                v.split();
                m.split();
            }
            1 => {
                log.push("split_force".into());
                v.split_force();
                m.split_force();
            }
            2 => {
                log.push("cleave".into());
                v.cleave();
                m.split();
                m.split_force();
            }
            3 => {
                let x = T::draw(s);
                log.push(format!("push {x:?}"));
                v.push_current(x.clone());
                m.write(&[x]);
            }
            4 => {
                let e = elems::<T>(s);
                log.push(format!("extend {e:?}"));
                match s.draw(2) {
                    0 => v.extend_current(e.clone()),
                    1 => v.extend_current(e.iter().cloned()),
                    // an iterator that cannot tell how much it will give
                    _ => v.extend_current(e.iter().cloned().filter(|_| true)),
                }
                m.write(&e);
            }
            5 => {
                let e = elems::<T>(s);
                log.push(format!("slice {e:?}"));
                v.extend_current_from_slice(&e);
                m.write(&e);
            }
            6 => {
                let mut e = elems::<T>(s);
                log.push(format!("append {e:?}"));
                m.write(&e);
                v.append_current(&mut e);
                ensure!(e.is_empty(), "appending left {e:?} behind");
            }
            7 => {
                let (mut w, mut n, mut l2) = (SplitVec::new(), Model::new(), vec![]);
                for _ in 0..s.range(0, 6) {
                    step(s, &mut w, &mut n, &mut l2, depth + 1)?;
                }
                log.push(format!("concat({})", l2.join(", ")));
                v.concat(&mut w);
                m.split();
                m.done.append(&mut n.done);
                m.open = n.open.take();
                check(&w, &Model::new(), s).map_err(|e| format!("what was concatenated is not left empty: {e}"))?;
                // and it goes on as an empty one
                w.push_current(T::default());
                let mut n = Model::new();
                n.write(&[T::default()]);
                check(&w, &n, s)?;
            }
            8 => {
                let g = groups::<T>(s);
                log.push(format!("extend by segments {g:?}"));
                v.extend(g.clone());
                for x in g {
                    m.split();
                    m.write(&x);
                }
                m.split();
            }
            9 => {
                log.push("clone".into());
                let w = v.clone();
                ensure!(w == *v, "a clone is not equal");
                *v = w;
            }
            10 => {
                log.push("into_parts".into());
                let (b, l) = v.clone().into_parts();
                ensure_eq!(b, m.flat(), "content of the parts");
                ensure_eq!(l, m.all().iter().map(|g| g.len()).collect::<Vec<_>>(), "segment lengths of the parts");
                ensure_eq!(v.clone().into_inner(), b, "into_inner");
                ensure_eq!(Vec::<T>::from(v.clone()), b, "conversion to a vector");
                T::buffer(v.clone(), m)?;
            }
            _ => {
                log.push("restart".into());
                let g = groups::<T>(s);
                let e = g.concat();
                match s.draw(3) {
                    0 => {
                        *v = SplitVec::from_vec(e.clone().roomy());
                        *m = Model { done: vec![], open: Some(e) };
                    }
                    1 => {
                        *v = SplitVec::from(e.clone().roomy());
                        *m = Model { done: vec![], open: Some(e) };
                    }
                    2 => {
                        *v = g.clone().into_iter().collect();
                        *m = Model { done: g, open: None };
                    }
                    _ => {
                        *v = SplitVec::default();
                        *m = Model::new();
                    }
                }
            }
        }
        Ok(())
    }
    /// Values, or segments of values, from iterators that fail on the way: the
    /// vector has what it took before the failure, its segments still add up
    /// to its content, and it can be used as before.
    fn failing<T: Elem>(s: &mut Src, v: &SplitVec<T>, m: &Model<T>, log: &mut Vec<String>) -> R {
        let fails = |x: Vec<T>, k: usize| {
            let mut left = k;
            x.into_iter().map(Some).chain(std::iter::once(None)).map(move |y| match (left, y) {
                (0, _) | (_, None) => panic!("the caller's own iterator fails"),
                (_, Some(y)) => {
                    left -= 1;
                    y
                }
            })
        };
        let mut w = v.clone();
        let (r, given, some) = if s.coin() {
            let e = elems::<T>(s);
            let k = s.range(0, e.len());
            log.push(format!("extend {e:?}, failing after {k}"));
            (guard(|| w.extend_current(fails(e.clone(), k))), e, m.all())
        } else {
            let g = groups::<T>(s);
            let n = s.range(0, g.len());
            let (last, k) = match g.get(n) {
                Some(x) => (x.clone(), s.range(0, x.len())),
                None => (vec![], 0),
            };
            log.push(format!("extend by segments {g:?}, failing in {n} after {k}"));
            let mut it: Vec<Box<dyn Iterator<Item = T>>> = vec![];
            for x in &g[..n] {
                it.push(Box::new(x.clone().into_iter()));
            }
            it.push(Box::new(fails(last, k)));
            (guard(|| w.extend(it)), g.concat(), m.all())
        };
        match r {
            Ok(()) => return Err("goes on after an iterator's failure".into()),
            Err(e) => ensure!(e.contains("the caller's own iterator fails"), "another panic: {e}"),
        }
        ensure!(w.is_balanced(), "the segments do not add up to the content after an iterator's failure");
        let (now, was) = (w.as_ref().to_vec(), m.flat());
        ensure!(now.starts_with(&was) && given.starts_with(&now[was.len()..]), "holds {now:?} after an iterator's failure");
        let seen: Vec<Vec<T>> = w.spans().map(|x| x.to_vec()).collect();
        ensure_eq!(seen.concat(), now, "segments after an iterator's failure");
        ensure!(seen.starts_with(&m.done) && seen.len() >= some.len(), "segments {seen:?} after an iterator's failure");
        // and goes on
        w.split();
        w.push_current(T::default());
        let mut n = Model { done: w.spans().map(|x| x.to_vec()).collect(), open: None };
        n.open = n.done.pop();
        ensure_eq!(n.flat(), [now, vec![T::default()]].concat(), "one more after an iterator's failure");
        check(&w, &n, s)
    }
    thread_local! {
        static COPIES: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
    }
    #[derive(PartialEq, Debug)]
    struct Fragile(u8);
    impl Clone for Fragile {
        fn clone(&self) -> Self {
            let n = COPIES.with(|c| c.get());
            if n == Some(0) {
                panic!("the element's own copying fails");
            }
            COPIES.with(|c| c.set(n.map(|n| n - 1)));
            Fragile(self.0)
        }
    }
    /// Elements whose copying fails on the way.
    pub fn copies(cx: &mut Cx) -> R {
        let s = &mut cx.s;
        let mut v = SplitVec::<Fragile>::new();
        let mut m = Model::<u8>::new();
        for _ in 0..s.range(0, 5) {
            let n = s.range(0, 5);
            for b in s.bytes(n) {
                v.push_current(Fragile(b));
                m.write(&[b]);
            }
            if s.chance(1, 2) {
                v.split();
                m.split();
            }
        }
        let n = s.range(1, 20);
        let given = s.bytes(n);
        let k = s.range(0, n - 1);
        cx.note(|| format!("{m:?}, given {given:?}, failing after {k}"));
        let src: Vec<Fragile> = given.iter().map(|b| Fragile(*b)).collect();
        COPIES.with(|c| c.set(Some(k)));
        let whole = cx.s.coin();
        let r = guard(|| if whole { drop(v.clone()) } else { v.extend_current_from_slice(&src) });
        let asked = COPIES.with(|c| c.replace(None)) == Some(0);
        let was = m.flat();
        let fails = if whole { was.len() > k } else { true };
        match r {
            Ok(()) => ensure!(!fails, "goes on after an element's failure"),
            Err(e) => ensure!(fails && asked && e.contains("the element's own copying fails"), "another panic: {e}"),
        }
        ensure!(v.is_balanced(), "the segments do not add up to the content after an element's failure");
        let now: Vec<u8> = v.as_ref().iter().map(|x| x.0).collect();
        ensure!(now.starts_with(&was) && given.starts_with(&now[was.len()..]), "holds {now:?} after an element's failure");
        ensure!(!whole || now == was, "a failed copy changed what was copied");
        let seen = |v: &SplitVec<Fragile>| v.spans().map(|x| x.iter().map(|y| y.0).collect::<Vec<u8>>()).collect::<Vec<_>>();
        ensure!(seen(&v).concat() == now && seen(&v).starts_with(&m.done), "segments {:?} after an element's failure", seen(&v));
        let mut want = seen(&v);
        v.split_force();
        v.push_current(Fragile(7));
        if seen(&v).len() == want.len() + 2 {
            want.push(vec![]); // nothing had been written to the active one
        }
        want.push(vec![7]);
        ensure_eq!(seen(&v), want, "one more after an element's failure");
        if k > 0 && !was.is_empty() {
            cx.nontrivial(&(&was, &given, k, whole));
        }
        Ok(())
    }
    pub fn history<T: Elem>(cx: &mut Cx) -> R {
        let n = match cx.s.weighted(&[160, 120, 40, 1]) {
            0 => cx.s.range(0, 6),
            1 => cx.s.range(0, 15),
            2 => cx.s.range(0, 40),
            _ => cx.s.range(0, 400),
        };
        let (mut v, mut m, mut log) = (SplitVec::<T>::new(), Model::new(), vec![]);
        let mut old: Vec<(SplitVec<T>, Model<T>)> = vec![];
        let res = (|| -> R {
            check(&v, &m, &mut cx.s)?;
            for _ in 0..n {
                if v.len() > 150_000 {
                    break; // it takes long enough to look at that
                }
                step(&mut cx.s, &mut v, &mut m, &mut log, 0)?;
                check(&v, &m, &mut cx.s)?;
                if cx.s.chance(1, 4) {
                    old.push((v.clone(), m.clone()));
                }
            }
            if cx.s.chance(1, 4) {
                failing(&mut cx.s, &v, &m, &mut log)?;
            }
            // comparison: by content, then by segmentation
            for (w, k) in &old {
                ensure_eq!(*w == v, *k == m, "equality of {w:?} and {v:?} ({k:?}, {m:?})");
                ensure_eq!(w.cmp(&v).is_eq(), *k == m, "order of {w:?} and {v:?}");
                ensure_eq!(w.partial_cmp(&v), Some(w.cmp(&v)), "both orders");
                ensure_eq!(v.cmp(w), w.cmp(&v).reverse(), "the order turned round");
                if k.flat() != m.flat() {
                    ensure_eq!(w.cmp(&v), k.flat().cmp(&m.flat()), "order by content");
                }
                if *k == m {
                    ensure_eq!(hash_of(w), hash_of(&v), "hashes of equal vectors");
                }
            }
            Ok(())
        })();
        if m.all().len() > 1 && m.all().iter().any(|g| !g.is_empty()) {
            cx.nontrivial(&log);
        }
        cx.note(|| log.join(", "));
        res
    }
}

#[cfg(feature = "expose_internal")]
pub mod offsets {
    use super::*;
    use tedium::internal::offset::{ContextOffset, Index, IndexTracker};
    use tedium::parse::error::{ParseError, WindowError as W};

    fn window(e: ParseError) -> Result<W, String> {
        match e {
            ParseError::Window(w) => Ok(w),
            e => Err(format!("unexpected kind of error {e:?}")),
        }
    }
    fn limits(s: &mut Src) -> usize {
        match s.weighted(&[2, 6, 2, 2]) {
            0 => 0,
            1 => s.range(0, 40),
            2 => usize::MAX - s.range(0, 3),
            _ => (1usize << s.range(8, 63)) - s.range(0, 1),
        }
    }
    fn step(s: &mut Src, rem: usize) -> usize {
        match s.weighted(&[2, 3, 6, 2, 2, 2]) {
            0 => 0,
            1 => 1,
            2 => s.range(0, rem.min(12)),
            3 => rem.saturating_sub(s.range(0, 2)),
            4 => rem.saturating_add(s.range(0, 2)),
            _ => usize::MAX - s.range(0, 3),
        }
    }
    pub fn history(cx: &mut Cx) -> R {
        let abs = limits(&mut cx.s);
        let n = cx.s.range(0, 30);
        let (mut cur, mut frames): (usize, Vec<usize>) = (0, vec![]);
        let mut o = ContextOffset::with_limit(abs);
        let mut log = vec![format!("limit {abs}")];
        let mut failed = 0;
        let res = (|| -> R {
            for _ in 0..n {
                let lim = frames.last().copied().unwrap_or(abs);
                let rem = lim - cur;
                match cx.s.weighted(&[6, 4, 2, 3]) {
                    0 => {
                        let k = step(&mut cx.s, rem);
                        log.push(format!("advance {k}"));
                        ensure_eq!(o.advance(k), (cur, k <= rem), "advancing by {k}");
                        if k <= rem {
                            cur += k
                        } else {
                            failed += 1
                        }
                    }
                    1 => {
                        let k = step(&mut cx.s, rem);
                        log.push(format!("set_fit {k}"));
                        let want = if k > abs - cur {
                            Some(W::OpenWouldExceedBuffer { bytes_left: abs - cur, request: k })
                        } else if k > rem {
                            Some(W::OpenWouldExceedWindow { limit: rem, request: k })
                        } else {
                            None
                        };
                        match (o.set_fit(k), want) {
                            (Ok(()), None) => frames.push(cur + k),
                            (Err(e), Some(w)) => {
                                failed += 1;
                                ensure_eq!(format!("{:?}", window(e)?), format!("{w:?}"), "error of opening a window of {k}")
                            }
                            (got, want) => return Err(format!("opening a window of {k}: {got:?}, expected {want:?}")),
                        }
                    }
                    2 => {
                        log.push("test".into());
                        let got = o.test_target().map_err(|e| format!("testing fails: {e:?}"))?;
                        ensure_eq!(got, !frames.is_empty() && rem == 0, "test for the end of the window");
                    }
                    _ => {
                        log.push("enforce".into());
                        let want = match frames.last() {
                            None => Some(W::CloseWithoutWindow),
                            Some(_) if rem > 0 => Some(W::CloseWithResidue { residual: rem }),
                            Some(_) => None,
                        };
                        match (o.enforce_target(), want) {
                            (Ok(()), None) => {
                                frames.pop();
                            }
                            (Err(e), Some(w)) => {
                                failed += 1;
                                ensure_eq!(format!("{:?}", window(e)?), format!("{w:?}"), "error of closing")
                            }
                            (got, want) => return Err(format!("closing: {got:?}, expected {want:?}")),
                        }
                    }
                }
                let lim = frames.last().copied().unwrap_or(abs);
                ensure_eq!(o.index(), cur, "index");
                ensure_eq!(o.absolute_limit(), abs, "absolute limit");
                ensure_eq!(o.limit(), lim, "limit");
                ensure_eq!(o.rem(), lim - cur, "remaining indices");
            }
            Ok(())
        })();
        if failed > 0 && log.len() > 3 {
            cx.nontrivial(&log);
        }
        cx.note(|| log.join(", "));
        res
    }
    /// `Index` on its own.
    pub fn index(cx: &mut Cx) -> R {
        let at = limits(&mut cx.s);
        let lim = if cx.s.coin() { limits(&mut cx.s) } else { at.saturating_add(cx.s.range(0, 40)) };
        let n = step(&mut cx.s, lim.saturating_sub(at));
        let mut i = Index::from(at);
        let fits = at.checked_add(n).map_or(false, |e| e <= lim);
        let (old, ok) = i.increment_checked(n, lim);
        ensure_eq!(old, at, "value before the increment of {at} by {n}, limit {lim}");
        // by zero it is documented to happen always
        ensure_eq!(ok, fits || n == 0, "whether {at} can be incremented by {n}, limit {lim}");
        let now = if fits { at + n } else { at };
        ensure_eq!(i.to_usize(), now, "value after the increment");
        ensure_eq!(usize::from(i), now, "conversion");
        ensure_eq!(*i.as_ref(), now, "reference");
        let other = limits(&mut cx.s);
        let j = Index::from(other);
        ensure_eq!(i.cmp(&j), now.cmp(&other), "order");
        ensure_eq!(i == j, now == other, "equality");
        ensure_eq!(Index::new().to_usize(), 0, "new index");
        ensure_eq!(Index::default().to_usize(), 0, "default index");
        ensure_eq!(format!("{i}|{i:>24}|{i:+}|{i:030}"), format!("{now}|{now:>24}|{now:+}|{now:030}"), "text");
        #[cfg(feature = "index_binary_formatting")]
        {
            ensure_eq!(format!("{i:b}|{i:#b}|{i:080b}"), format!("{now:b}|{now:#b}|{now:080b}"), "binary text");
            ensure_eq!(format!("{i:o}|{i:#o}|{i:>30o}"), format!("{now:o}|{now:#o}|{now:>30o}"), "octal text");
            ensure_eq!(format!("{i:x}|{i:#x}|{i:#020x}"), format!("{now:x}|{now:#x}|{now:#020x}"), "hexadecimal text");
            ensure_eq!(format!("{i:X}|{i:#X}|{i:<20X}"), format!("{now:X}|{now:#X}|{now:<20X}"), "upper-case hexadecimal text");
        }
        if n > 0 && at > 0 {
            cx.nontrivial(&(at, lim, n));
        }
        cx.note(|| format!("{at} + {n}, limit {lim}"));
        Ok(())
    }
}

#[cfg(feature = "serde_impls")]
pub mod ser {
    use super::*;
    use serde::ser::{Impossible, Serialize, Serializer};
    use tedium::{Bytes, FixedBytes};

    #[derive(Debug)]
    pub struct Refused(String);
    impl std::fmt::Display for Refused {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for Refused {}
    impl serde::ser::Error for Refused {
        fn custom<T: std::fmt::Display>(m: T) -> Self {
            Refused(m.to_string())
        }
    }
    /// Accepts a byte string and nothing else, and counts how often it is asked;
    /// or refuses even that.
    struct Only<'a>(&'a mut Vec<Vec<u8>>, bool);
    macro_rules! no {
        ($($f:ident($($t:ty),*)),+ $(,)?) => { $( fn $f(self, $(_: $t),*) -> Result<Self::Ok, Refused> { Err(Refused(stringify!($f).into())) } )+ };
    }
    macro_rules! nested {
        ($($f:ident($($t:ty),*) -> $a:ident),+ $(,)?) => { $( fn $f(self, $(_: $t),*) -> Result<Self::$a, Refused> { Err(Refused(stringify!($f).into())) } )+ };
    }
    impl<'a> Serializer for Only<'a> {
        type Ok = u32;
        type Error = Refused;
        type SerializeSeq = Impossible<u32, Refused>;
        type SerializeTuple = Impossible<u32, Refused>;
        type SerializeTupleStruct = Impossible<u32, Refused>;
        type SerializeTupleVariant = Impossible<u32, Refused>;
        type SerializeMap = Impossible<u32, Refused>;
        type SerializeStruct = Impossible<u32, Refused>;
        type SerializeStructVariant = Impossible<u32, Refused>;
        fn serialize_bytes(self, v: &[u8]) -> Result<u32, Refused> {
            self.0.push(v.to_vec());
            if self.1 {
                Err(Refused("on purpose".into()))
            } else {
                Ok(77)
            }
        }
        no!(serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64), serialize_u8(u8),
            serialize_u16(u16), serialize_u32(u32), serialize_u64(u64), serialize_f32(f32), serialize_f64(f64), serialize_char(char),
            serialize_str(&str), serialize_none(), serialize_unit(), serialize_unit_struct(&'static str),
            serialize_unit_variant(&'static str, u32, &'static str));
        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<u32, Refused> {
            Err(Refused("serialize_some".into()))
        }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<u32, Refused> {
            Err(Refused("serialize_newtype_struct".into()))
        }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<u32, Refused> {
            Err(Refused("serialize_newtype_variant".into()))
        }
        nested!(serialize_seq(Option<usize>) -> SerializeSeq, serialize_tuple(usize) -> SerializeTuple,
            serialize_tuple_struct(&'static str, usize) -> SerializeTupleStruct,
            serialize_tuple_variant(&'static str, u32, &'static str, usize) -> SerializeTupleVariant,
            serialize_map(Option<usize>) -> SerializeMap, serialize_struct(&'static str, usize) -> SerializeStruct,
            serialize_struct_variant(&'static str, u32, &'static str, usize) -> SerializeStructVariant);
        fn is_human_readable(&self) -> bool {
            self.0.capacity() % 2 == 1
        }
    }
    fn check<T: Serialize>(what: &str, v: &T, bytes: &[u8]) -> R {
        for fail in [false, true] {
            let mut seen = Vec::with_capacity(if fail { 3 } else { 4 });
            let got = v.serialize(Only(&mut seen, fail));
            ensure_eq!(seen, vec![bytes.to_vec()], "{what}: byte strings given to the serializer (result {got:?})");
            match (fail, got) {
                (false, Ok(77)) => {}
                (true, Err(e)) if e.0 == "on purpose" => {}
                (_, got) => return Err(format!("{what}: the serializer's own result is not returned, but {got:?}")),
            }
        }
        Ok(())
    }
    pub fn bytes(cx: &mut Cx) -> R {
        let n = match cx.s.weighted(&[1, 6, 3, 1]) {
            0 => 0,
            1 => cx.s.range(0, 20),
            2 => *cx.s.pick(&[31usize, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257]),
            _ => cx.s.range(0, 5000),
        };
        let b = cx.s.bytes(n);
        check("Bytes", &Bytes::from(b.clone().roomy()), &b)?;
        check("&Bytes", &&Bytes::from(b.clone()), &b)?;
        if !b.is_empty() {
            cx.nontrivial(&b);
        }
        cx.note(|| format!("{b:02x?}"));
        Ok(())
    }
    pub fn fixed<const N: usize>(cx: &mut Cx) -> R {
        let b = cx.s.bytes(N);
        let a: [u8; N] = b.clone().try_into().unwrap();
        check("FixedBytes", &FixedBytes::<N>::from_array(a), &b)?;
        if !b.is_empty() {
            cx.nontrivial(&b);
        }
        cx.note(|| format!("{b:02x?}"));
        Ok(())
    }
}
