//! A small integrated-shrinking property-based testing engine.
//!
//! Every random decision of a case is drawn through [`Src`], which records the
//! decisions as a sequence of integers ("choices").  A case is therefore a pure
//! function of its choice sequence; shrinking edits that sequence (deleting,
//! zeroing and minimising choices) and replays the property, so any generator,
//! however dependent, shrinks for free.  A saved choice sequence is the replay.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

pub type R = Result<(), String>;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9e37_79b9_7f4a_7c15)
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    h
}

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 ^= *b as u64;
            self.0 = self.0.wrapping_mul(0x1000_0000_01b3);
        }
    }
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv(0xcbf2_9ce4_8422_2325);
    t.hash(&mut h);
    h.finish()
}

/// Source of choices.
pub struct Src {
    rng: Option<Rng>,
    preset: Vec<u64>,
    pub log: Vec<u64>,
}
/// Upper limit on choices in one case (keeps runaway generators finite).
const MAX_CHOICES: usize = 60_000;

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), preset: vec![], log: vec![] }
    }
    pub fn preset(choices: Vec<u64>) -> Self {
        Src { rng: None, preset: choices, log: vec![] }
    }
    pub fn random_after(seed: u64, preset: Vec<u64>) -> Self {
        Src { rng: Some(Rng::new(seed)), preset, log: vec![] }
    }
    /// A value in `0..=max`, simplest 0.
    #[inline]
    pub fn draw(&mut self, max: u64) -> u64 {
        let i = self.log.len();
        let v = if i < self.preset.len() {
            self.preset[i].min(max)
        } else if i >= MAX_CHOICES {
            0
        } else {
            match &mut self.rng {
                Some(r) => {
                    let x = r.next();
                    if max == u64::MAX {
                        x
                    } else {
                        x % (max + 1)
                    }
                }
                None => 0,
            }
        };
        self.log.push(v);
        v
    }
    /// usize in `lo..=hi`
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        debug_assert!(lo <= hi);
        lo + self.draw((hi - lo) as u64) as usize
    }
    pub fn i_range(&mut self, lo: i128, hi: i128) -> i128 {
        debug_assert!(lo <= hi);
        let span = (hi - lo) as u128;
        // simplest value: the one closest to zero within the range
        let base = if lo > 0 { lo } else if hi < 0 { hi } else { 0 };
        let off = self.draw(span.min(u64::MAX as u128) as u64) as i128;
        // walk upward from base, wrapping around
        let v = base + off;
        if v <= hi {
            v
        } else {
            lo + (v - hi - 1)
        }
    }
    pub fn coin(&mut self) -> bool {
        self.draw(1) == 1
    }
    /// True with probability n/d; shrinks to false.
    pub fn chance(&mut self, n: u64, d: u64) -> bool {
        self.draw(d - 1) >= d - n
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.draw(xs.len() as u64 - 1) as usize;
        &xs[i]
    }
    /// Index chosen with the given weights; shrinks to index 0.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut x = self.draw(total - 1);
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }
    pub fn byte(&mut self) -> u8 {
        match self.weighted(&[4, 3]) {
            0 => self.draw(255) as u8,
            _ => *self.pick(&[0u8, 1, 2, 3, 4, 5, 8, 0x3f, 0x40, 0x41, 0x7e, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xc1, 0xfe, 0xff]),
        }
    }
    pub fn bytes(&mut self, len: usize) -> Vec<u8> {
        if len == 0 {
            return vec![];
        }
        if len > 400 {
            return self.stretch(len);
        }
        match self.weighted(&[24, 2, 2, 2, 2]) {
            0 => (0..len).map(|_| self.byte()).collect(),
            1 => vec![self.byte(); len],
            2 => {
                // a head that means something to somebody
                const HEADS: &[&[u8]] = &[b"\xef\xbb\xbf", b"0x", b"0X", b"\xfe\xff", b"\xff\xfe", b"\x00\x00\x00\x00", b"\xff\xff\xff\xff", b"\"", b"#", b" ", b"\r\n"];
                let mut v = self.pick(HEADS).to_vec();
                v.truncate(len);
                while v.len() < len {
                    v.push(self.byte());
                }
                v
            }
            3 => {
                // a tail of zeros, or of something else that may be trimmed
                let k = self.range(1, len);
                let t = *self.pick(&[0u8, b' ', b'\n', 0xff, 0x80]);
                (0..len).map(|i| if i < len - k { self.byte() } else { t }).collect()
            }
            _ => (0..len).map(|_| *self.pick(b"0123456789abcdefABCDEFxX_ ")).collect(),
        }
    }
    /// Many bytes from few choices.
    pub fn stretch(&mut self, len: usize) -> Vec<u8> {
        let mut r = Rng::new(self.draw(0xffff));
        let mut v: Vec<u8> = (0..len).map(|_| (r.next() >> 24) as u8).collect();
        let n = v.len();
        if n > 0 {
            v[n - 1] = self.byte();
            v[0] = self.byte();
        }
        v
    }
    pub fn small_len(&mut self) -> usize {
        match self.weighted(&[60, 24, 5, 3, 1]) {
            0 => self.range(0, 6),
            1 => self.range(0, 24),
            2 => self.range(0, 300),
            3 => *self.pick(&[32usize, 64, 128, 256]) + self.range(0, 2) - 1,
            _ => *self.pick(&[512usize, 1024, 2048, 4096]) + self.range(0, 2) - 1,
        }
    }
    /// Lengths where buffers, prefixes and counters of any size may give way.
    pub fn long_len(&mut self) -> usize {
        *self.pick(&[255usize, 256, 4096, 1024, 8192, 16384, 32768, 65536, 131072, 1 << 20]) + self.range(0, 3) - 1
    }
    /// More than a megabyte.
    pub fn giant_len(&mut self) -> usize {
        *self.pick(&[1usize << 20, 1 << 21]) + *self.pick(&[0usize, 1, 1000])
    }
    /// Integer in lo..=hi, biased to the bounds, zero and powers of two.
    pub fn int(&mut self, lo: i128, hi: i128) -> i128 {
        match self.weighted(&[4, 3, 3, 4]) {
            0 => self.i_range(lo, hi),
            1 => {
                let d = self.draw(3) as i128;
                if self.coin() {
                    (hi - d).max(lo)
                } else {
                    (lo + d).min(hi)
                }
            }
            2 => {
                let d = self.draw(16) as i128;
                let v = if self.coin() { -d } else { d };
                v.clamp(lo, hi)
            }
            _ => {
                let e = self.draw(64) as u32;
                let d = self.draw(2) as i128 - 1;
                let v = (1i128 << e) + d;
                let v = if self.coin() { -v } else { v };
                v.clamp(lo, hi)
            }
        }
    }
    /// A usize including extreme ones, centred on `around`.
    pub fn amount(&mut self, around: usize) -> usize {
        match self.weighted(&[10, 6, 2, 2, 2]) {
            0 => self.range(0, around.saturating_add(1)),
            4 => {
                // what a narrower counter takes for `around` or for nothing
                let unit = *self.pick(&[256usize, 65536]);
                let k = unit * self.range(1, 3);
                match self.draw(2) {
                    0 => around.saturating_sub(k),
                    1 => around.saturating_add(k),
                    _ => k,
                }
            }
            1 => {
                let d = self.range(0, 2);
                if self.coin() { around.saturating_add(d) } else { around.saturating_sub(d) }
            }
            2 => self.range(0, 64),
            _ => {
                let d = self.range(0, 40);
                *self.pick(&[usize::MAX, usize::MAX / 2, (isize::MAX as usize) + 1, u32::MAX as usize, 1 << 30, 1 << 62]) - d
            }
        }
    }
}

pub struct Cx {
    pub s: Src,
    pub classes: Vec<&'static str>,
    pub nt: Option<u64>,
    pub note: String,
    pub skip: Option<&'static str>,
}
impl Cx {
    pub fn new(s: Src) -> Self {
        Cx { s, classes: vec![], nt: None, note: String::new(), skip: None }
    }
    pub fn class(&mut self, c: &'static str) {
        self.classes.push(c)
    }
    /// Declares the case non-trivial; `key` identifies it for distinctness.
    pub fn nontrivial<T: Hash + ?Sized>(&mut self, key: &T) {
        self.nt = Some(hash_of(key));
    }
    pub fn note(&mut self, s: impl FnOnce() -> String) {
        self.note = s();
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($fmt:tt)*) => { if !$c { return Err(format!($($fmt)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($fmt:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($fmt)*), a, b)); }
    }};
}

pub struct Target {
    pub name: String,
    pub quick: u64,
    pub thorough: u64,
    pub exhaustive: bool,
    pub f: Box<dyn Fn(&mut Cx) -> R + Sync + Send>,
}
pub fn target(name: impl Into<String>, quick: u64, thorough: u64, f: impl Fn(&mut Cx) -> R + Sync + Send + 'static) -> Target {
    Target { name: name.into(), quick, thorough, exhaustive: false, f: Box::new(f) }
}
/// A target whose first choice enumerates `0..total` completely.
pub fn enumerated(name: impl Into<String>, total: u64, f: impl Fn(&mut Cx, u64) -> R + Sync + Send + 'static) -> Target {
    Target {
        name: name.into(),
        quick: total,
        thorough: total,
        exhaustive: true,
        f: Box::new(move |cx| {
            let i = cx.s.draw(total - 1);
            f(cx, i)
        }),
    }
}

pub const HANG_SECS: u64 = 40;

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub targets: Vec<Target>,
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info.to_string();
        let _ = PANIC_MSG.try_with(|p| *p.borrow_mut() = m);
    }));
}
pub fn last_panic() -> String {
    PANIC_MSG.with(|p| p.borrow().clone())
}
/// Runs `f`, turning a panic into `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

fn run_case(t: &Target, src: Src) -> (Result<(), String>, Cx) {
    let mut cx = Cx::new(src);
    let res = match catch_unwind(AssertUnwindSafe(|| (t.f)(&mut cx))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", last_panic())),
    };
    (res, cx)
}

fn case_src(prop: &str, t: &Target, seed: u64, idx: u64) -> Src {
    let s = Rng::new(seed.wrapping_mul(0x2545_f491_4f6c_dd1d) ^ fnv(prop.as_bytes()) ^ fnv(t.name.as_bytes()).rotate_left(17)).next()
        ^ idx.wrapping_mul(0xd6e8_feb8_6659_fd93);
    let s = Rng::new(s).next();
    if t.exhaustive {
        Src::random_after(s, vec![idx])
    } else {
        Src::random(s)
    }
}

fn shrink(t: &Target, choices: Vec<u64>, msg: String) -> (Vec<u64>, String) {
    let mut best = choices;
    let mut bmsg = msg;
    let mut budget = 6000usize;
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(20);
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, bmsg: &mut String| -> bool {
        if budget == 0 || cand == *best || std::time::Instant::now() > deadline {
            return false;
        }
        budget -= 1;
        let (r, cx) = run_case(t, Src::preset(cand));
        if let Err(m) = r {
            let mut log = cx.s.log;
            while log.last() == Some(&0) {
                log.pop();
            }
            if (log.len(), &log) < (best.len(), best) {
                *best = log;
                *bmsg = m;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete chunks
        let mut k = (best.len() / 2).max(1);
        while k >= 1 {
            let mut i = best.len().saturating_sub(k);
            loop {
                if i + k <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + k);
                    if !attempt(c, &mut best, &mut bmsg) && i > 0 {
                        // also try deleting while decrementing a preceding length-like choice
                        let mut c = best.clone();
                        if i + k <= c.len() && c[i - 1] > 0 {
                            c[i - 1] -= 1;
                            c.drain(i..i + k);
                            attempt(c, &mut best, &mut bmsg);
                        }
                    }
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(k.max(1));
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        // zero chunks
        for k in [8usize, 4, 2] {
            let mut i = 0;
            while i + k <= best.len() {
                let mut c = best.clone();
                c[i..i + k].iter_mut().for_each(|x| *x = 0);
                attempt(c, &mut best, &mut bmsg);
                i += k;
            }
        }
        // minimise single choices
        let mut i = 0;
        while i < best.len() {
            if best[i] != 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt(c, &mut best, &mut bmsg) {
                    let mut lo = 0u64;
                    while i < best.len() && lo + 1 < best[i] {
                        let mid = lo + (best[i] - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if !attempt(c, &mut best, &mut bmsg) {
                            lo = mid;
                        }
                    }
                    if i < best.len() && best[i] > 0 {
                        let mut c = best.clone();
                        c[i] -= 1;
                        attempt(c, &mut best, &mut bmsg);
                    }
                }
            }
            i += 1;
        }
        // lower a choice in favour of a neighbour
        for i in 0..best.len().saturating_sub(1) {
            if i + 1 < best.len() && best[i] > 0 {
                let mut c = best.clone();
                let d = c[i];
                c[i] = 0;
                c[i + 1] = c[i + 1].saturating_add(d);
                attempt(c, &mut best, &mut bmsg);
            }
        }
        if best == before || std::time::Instant::now() > deadline {
            break;
        }
    }
    (best, bmsg)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn json_u64s(v: &[u64]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

struct Failure {
    idx: u64,
    choices: Vec<u64>,
    msg: String,
}

#[derive(Default)]
struct Stats {
    evals: u64,
    nontriv: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    skipped: BTreeMap<&'static str, u64>,
    samples: Vec<(usize, u64, String)>,
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

/// Entry point of a worker binary.
///
/// `--prop ID --tier T --seed N --out FILE [--slots FILE] [--scale PCT] [--only SUBSTR]`
/// `--prop ID --target NAME --choices a,b,c`   replay one case (exit 1 if it fails)
/// `--prop ID --target-index K --case I --seed N` run one generated case
pub fn main_with(lookup: impl Fn(&str) -> Option<Property>) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let id = arg(&args, "--prop").expect("--prop");
    let tier = arg(&args, "--tier").unwrap_or("quick".into());
    let seed: u64 = arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let prop = match lookup(&id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(3)
        }
    };
    if let Some(ch) = arg(&args, "--choices") {
        let name = arg(&args, "--target").expect("--target");
        let t = prop.targets.iter().find(|t| t.name == name).expect("no such target");
        let choices: Vec<u64> = ch.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        let (r, cx) = run_case(t, Src::preset(choices));
        println!("case: {}", cx.note);
        match r {
            Ok(()) => {
                println!("held");
                std::process::exit(0)
            }
            Err(m) => {
                println!("FAILS: {m}");
                std::process::exit(1)
            }
        }
    }
    if let Some(k) = arg(&args, "--target-index") {
        let t = &prop.targets[k.parse::<usize>().unwrap()];
        let i: u64 = arg(&args, "--case").unwrap().parse().unwrap();
        // print the choices as they are known before running, for crash replays
        let (r, cx) = run_case(t, case_src(&id, t, seed, i));
        println!("{}\n{}", t.name, json_u64s(&cx.s.log));
        std::process::exit(if r.is_ok() { 0 } else { 1 });
    }
    let only = arg(&args, "--only");
    let scale: u64 = arg(&args, "--scale").and_then(|s| s.parse().ok()).unwrap_or(100);
    let slots = arg(&args, "--slots").map(|p| std::fs::OpenOptions::new().create(true).write(true).open(p).unwrap());
    let nthreads: usize = arg(&args, "--threads").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(8));
    // flatten work into chunks, interleaving targets
    let mut work: Vec<(usize, u64, u64)> = vec![];
    for (ti, t) in prop.targets.iter().enumerate() {
        if let Some(o) = &only {
            if !t.name.contains(o.as_str()) {
                continue;
            }
        }
        let n = if tier == "thorough" { t.thorough } else { t.quick };
        let n = if t.exhaustive { n } else { (n * scale / 100).max(1) };
        let mut i = 0;
        while i < n {
            let e = (i + 128).min(n);
            work.push((ti, i, e));
            i = e;
        }
    }
    work.sort_by_key(|w| (w.1, w.0));
    let budget: u64 = arg(&args, "--budget").and_then(|s| s.parse().ok()).unwrap_or(3600);
    // A case that does not come back within HANG_SECS ends the run with code 70;
    // the slots file then says which cases were in flight.
    let t0 = std::time::Instant::now();
    let started: Vec<AtomicU64> = (0..nthreads).map(|_| AtomicU64::new(0)).collect();
    let started: &'static [AtomicU64] = Box::leak(started.into_boxed_slice());
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let now = t0.elapsed().as_millis() as u64;
        for s in started {
            let v = s.load(Ordering::Relaxed);
            if v != 0 && now > v + HANG_SECS * 1000 {
                std::process::exit(70);
            }
        }
    });
    let next = AtomicUsize::new(0);
    let min_fail: Vec<AtomicU64> = prop.targets.iter().map(|_| AtomicU64::new(u64::MAX)).collect();
    let fails: Mutex<BTreeMap<usize, Failure>> = Mutex::new(BTreeMap::new());
    let stats: Mutex<Stats> = Mutex::new(Stats::default());
    std::thread::scope(|sc| {
        for th in 0..nthreads {
            let (next, min_fail, fails, stats, work, prop, slots, id) = (&next, &min_fail, &fails, &stats, &work, &prop, &slots, &id);
            std::thread::Builder::new()
                .stack_size(32 << 20)
                .spawn_scoped(sc, move || {
                    let mut st = Stats::default();
                    loop {
                        let w = next.fetch_add(1, Ordering::Relaxed);
                        if w >= work.len() || t0.elapsed().as_secs() > budget {
                            break;
                        }
                        let (ti, a, b) = work[w];
                        let t = &prop.targets[ti];
                        for i in a..b {
                            if i > min_fail[ti].load(Ordering::Relaxed) {
                                break;
                            }
                            if let Some(f) = slots {
                                let mut buf = [0u8; 16];
                                buf[..8].copy_from_slice(&(ti as u64 + 1).to_le_bytes());
                                buf[8..].copy_from_slice(&i.to_le_bytes());
                                let _ = f.write_at(&buf, th as u64 * 16);
                            }
                            started[th].store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                            let (r, cx) = run_case(t, case_src(id, t, seed, i));
                            started[th].store(0, Ordering::Relaxed);
                            st.evals += 1;
                            for c in &cx.classes {
                                *st.classes.entry(c).or_insert(0) += 1;
                            }
                            if let Some(s) = cx.skip {
                                *st.skipped.entry(s).or_insert(0) += 1;
                            }
                            if let Some(k) = cx.nt {
                                st.nontriv += 1;
                                if st.distinct.len() < 3_000_000 {
                                    st.distinct.insert(k ^ (ti as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15));
                                }
                                if !cx.note.is_empty() && (i == 3 || i == 40) && st.samples.len() < 40 {
                                    st.samples.push((ti, i, cx.note.clone()));
                                }
                            }
                            if let Err(m) = r {
                                min_fail[ti].fetch_min(i, Ordering::Relaxed);
                                let mut g = fails.lock().unwrap();
                                let e = g.entry(ti).or_insert(Failure { idx: u64::MAX, choices: vec![], msg: String::new() });
                                if i < e.idx {
                                    *e = Failure { idx: i, choices: cx.s.log, msg: m };
                                }
                                break;
                            }
                        }
                        if let Some(f) = slots {
                            let _ = f.write_at(&[0u8; 16], th as u64 * 16);
                        }
                    }
                    let mut g = stats.lock().unwrap();
                    g.evals += st.evals;
                    g.nontriv += st.nontriv;
                    g.distinct.extend(st.distinct);
                    for (k, v) in st.classes {
                        *g.classes.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in st.skipped {
                        *g.skipped.entry(k).or_insert(0) += v;
                    }
                    g.samples.extend(st.samples);
                })
                .unwrap();
        }
    });
    let mut stats = stats.into_inner().unwrap();
    let fails = fails.into_inner().unwrap();
    stats.samples.sort();
    // spread samples over targets
    let step = (stats.samples.len() / 12).max(1);
    let samples: Vec<String> = stats.samples.iter().step_by(step).take(14).map(|(ti, i, n)| format!("{}#{}: {}", prop.targets[*ti].name, i, n)).collect();
    let classes: Vec<String> = stats.classes.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
    let skipped: Vec<String> = stats.skipped.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
    let one = |t: &Target, f: &Failure| {
        let note = run_case(t, Src::preset(f.choices.clone())).1.note;
        format!(
            "{{\"target\":{},\"case\":{},\"choices\":{},\"message\":{},\"note\":{}}}",
            json_str(&t.name),
            f.idx,
            json_u64s(&f.choices),
            json_str(&f.msg.chars().take(2000).collect::<String>()),
            json_str(&note.chars().take(2000).collect::<String>())
        )
    };
    let emit = |out_fail: &[String]| {
        let js = format!(
            "{{\"property\":{},\"evaluations\":{},\"nontrivial\":{},\"distinct_nontrivial\":{},\"targets\":{},\"exhaustive_targets\":{},\"rule\":{},\"classes\":{{{}}},\"skipped\":{{{}}},\"samples\":[{}],\"failures\":[{}]}}",
            json_str(&id),
            stats.evals,
            stats.nontriv,
            stats.distinct.len(),
            prop.targets.len(),
            prop.targets.iter().filter(|t| t.exhaustive).count(),
            json_str(prop.rule),
            classes.join(","),
            skipped.join(","),
            samples.iter().map(|s| json_str(&s.chars().take(400).collect::<String>())).collect::<Vec<_>>().join(","),
            out_fail.join(",")
        );
        if let Some(o) = arg(&args, "--out") {
            std::fs::write(o, js).unwrap();
        } else {
            println!("{js}");
        }
    };
    // Report first, then shrink (a few failures; one root cause often fails many
    // targets) and report again: a case that dies while shrinking loses nothing.
    let mut fails: Vec<(usize, Failure)> = fails.into_iter().collect();
    if !fails.is_empty() {
        let raw: Vec<String> = fails
            .iter()
            .map(|(ti, f)| {
                format!(
                    "{{\"target\":{},\"case\":{},\"choices\":{},\"message\":{},\"note\":\"\"}}",
                    json_str(&prop.targets[*ti].name),
                    f.idx,
                    json_u64s(&f.choices),
                    json_str(&f.msg.chars().take(2000).collect::<String>())
                )
            })
            .collect();
        emit(&raw);
    }
    let mut out_fail = vec![];
    for (n, (ti, f)) in fails.iter_mut().enumerate() {
        let t = &prop.targets[*ti];
        if n < 6 {
            let (choices, msg) = shrink(t, std::mem::take(&mut f.choices), std::mem::take(&mut f.msg));
            f.choices = choices;
            f.msg = msg;
        }
        out_fail.push(one(t, f));
    }
    emit(&out_fail);
    std::process::exit(if out_fail.is_empty() { 0 } else { 1 })
}

/// The same contents with a capacity that may exceed the length: what a caller
/// hands over by value is rarely trimmed to size.
pub trait Roomy: Sized {
    fn roomy(self) -> Self;
}
fn spare(n: usize, salt: usize) -> usize {
    [0, 1, 7, 0, 64, 3, n, 2 * n + 5][(n.wrapping_mul(5).wrapping_add(salt)) % 8]
}
impl<T> Roomy for Vec<T> {
    fn roomy(mut self) -> Self {
        let k = spare(self.len(), 0);
        self.shrink_to_fit();
        self.reserve_exact(k);
        self
    }
}
impl Roomy for String {
    fn roomy(mut self) -> Self {
        let k = spare(self.len(), self.bytes().next().unwrap_or(0) as usize);
        self.shrink_to_fit();
        self.reserve_exact(k);
        self
    }
}
impl<T: Clone> Roomy for std::borrow::Cow<'_, [T]>
{
    fn roomy(self) -> Self {
        match self {
            std::borrow::Cow::Owned(v) => std::borrow::Cow::Owned(v.roomy()),
            x => x,
        }
    }
}
