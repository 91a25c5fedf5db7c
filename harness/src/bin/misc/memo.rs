//! C26: the backtrace of the memoizing parser, read back from the standard
//! error stream it is printed to.
use crate::hist::*;
use std::io::{Read, Seek, SeekFrom};
use std::os::fd::AsRawFd;
use std::sync::{Mutex, OnceLock};
use tedium::parse::buffer::VecBuffer;
use tedium::*;
use vcore::engine::*;
use vcore::{ensure, ensure_eq};

extern "C" {
    fn dup2(a: i32, b: i32) -> i32;
}
/// Everything written to fd 2 ends up here from the first use on.
struct Capture {
    file: std::fs::File,
    at: u64,
}
static CAP: OnceLock<Mutex<Capture>> = OnceLock::new();
fn capture() -> &'static Mutex<Capture> {
    CAP.get_or_init(|| {
        let path = std::env::temp_dir().join(format!("vmemo-{}", std::process::id()));
        let file = std::fs::OpenOptions::new().create(true).read(true).append(true).open(&path).expect("harness: temp file");
        let _ = std::fs::remove_file(&path);
        let r = unsafe { dup2(file.as_raw_fd(), 2) };
        assert!(r == 2, "harness: cannot redirect stderr");
        Mutex::new(Capture { file, at: 0 })
    })
}
impl Capture {
    fn start(&mut self) {
        let _ = self.file.set_len(0);
        self.at = 0;
    }
    fn new_text(&mut self) -> String {
        let mut s = vec![];
        self.file.seek(SeekFrom::Start(self.at)).unwrap();
        self.file.read_to_end(&mut s).unwrap();
        self.at += s.len() as u64;
        String::from_utf8_lossy(&s).into_owned()
    }
}

/// `[|aabb|cc|]` as byte groups, leaving out empty ones.
fn parse_line(l: &str) -> Option<Vec<Vec<u8>>> {
    let b = l.trim().strip_prefix("[|")?.strip_suffix(']')?;
    let b = b.strip_suffix('|').unwrap_or(b);
    let mut out = vec![];
    for g in b.split('|') {
        if g.is_empty() {
            continue;
        }
        if g.len() % 2 != 0 {
            return None;
        }
        let v: Option<Vec<u8>> = (0..g.len() / 2).map(|i| u8::from_str_radix(&g[2 * i..2 * i + 2], 16).ok()).collect();
        out.push(v?);
    }
    Some(out)
}
fn parse_all(text: &str) -> Result<Vec<Vec<Vec<u8>>>, String> {
    text.lines().filter(|l| l.trim_start().starts_with("[|")).map(|l| parse_line(l).ok_or(format!("unreadable backtrace {l:?}"))).collect()
}

fn groups_of(m: &Model) -> Vec<Vec<u8>> {
    first_groups(m, m.groups.len())
}
fn first_groups(m: &Model, n: usize) -> Vec<Vec<u8>> {
    let mut at = 0;
    let mut out = vec![];
    for g in &m.groups[..n] {
        if *g > 0 {
            out.push(m.data[at..at + g].to_vec());
        }
        at += g;
    }
    out
}

pub fn history(cx: &mut Cx) -> R {
    // now and then a long record of small reads
    let long = cx.s.chance(1, 40);
    let d = if long {
        let k = cx.s.range(100, 900);
        bulk(&mut cx.s, k)
    } else {
        data(&mut cx.s)
    };
    let st = style(&mut cx.s);
    let n = if long { cx.s.range(100, 800) } else { draw_ops_count(&mut cx.s, st, d.len()).min(60) };
    let mut cap = capture().lock().unwrap_or_else(|e| e.into_inner());
    cap.start();
    let mut p = MemoParser::from_buffer(VecBuffer::from(d.clone().roomy()));
    let mut m = Model::new(d.clone());
    let mut ops = vec![];
    let (mut skips, mut fails, mut dumps) = (0, 0, 0);
    let res = (|| -> R {
        for _ in 0..n {
            if long && fails > 5 {
                break;
            }
            let o = if long && cx.s.chance(19, 20) {
                match cx.s.weighted(&[8, 2, 1, 1, 1, 1]) {
                    0 => Op::Byte,
                    1 => Op::U8,
                    2 => Op::U16,
                    3 => Op::Next,
                    4 => Op::Arr(*cx.s.pick(&[1usize, 2, 3])),
                    _ => Op::Consume(cx.s.range(0, 3)),
                }
            } else {
                op(&mut cx.s, st, m.rem(), &m.data[m.cur..m.end()], false)
            };
            ops.push(o.clone());
            let ngroups = m.groups.len();
            let before = groups_of(&m);
            let want = m.apply(&o).unwrap();
            let got = apply(&mut p, &o);
            if p.offset() != m.cur {
                // another property's business; the model no longer applies
                cx.skip = Some("parser diverges from the model");
                return Ok(());
            }
            skips += matches!(o, Op::Skip(_) | Op::SkipExact(_) | Op::SkipDyn(_) | Op::Kv(..)) as usize;
            let printed = parse_all(&cap.new_text())?;
            if got.is_err() {
                fails += 1;
            }
            let reads = matches!(want, Err(Ex::Consume { .. }));
            if elementary(&o) && !matches!(o, Op::Next) {
                if reads {
                    ensure!(!printed.is_empty(), "{o:?} fails without printing the backtrace");
                }
            }
            let check_now = !elementary(&o) || cx.s.chance(1, if long { 40 } else { 3 });
            if !check_now && printed.is_empty() {
                continue;
            }
            let before = first_groups(&m, ngroups);
            let mut seen = vec![];
            if check_now {
                dumps += 1;
                p.dump_state();
                let mut t = parse_all(&cap.new_text())?;
                ensure_eq!(t.len(), 1, "backtraces printed by one dump_state after {o:?}");
                seen = t.remove(0);
                if !elementary(&o) {
                    // how a composite call groups its own bytes is its business
                    let flat: Vec<u8> = seen.concat();
                    ensure!(flat == d[..m.cur], "after {o:?} the backtrace {seen:02x?} is not the consumed prefix {:02x?}", &d[..m.cur]);
                    ensure!(seen.starts_with(&before), "{o:?} alters earlier groups: {before:02x?} became {seen:02x?}");
                    let mut g: Vec<usize> = m.groups[..ngroups].to_vec();
                    g.extend(seen[before.len()..].iter().map(|x| x.len()));
                    m.groups = g;
                }
            }
            let now = groups_of(&m);
            for t in &printed {
                if elementary(&o) {
                    ensure!(*t == now, "{o:?} prints backtrace {t:02x?}, expected {now:02x?}");
                } else {
                    ensure!(now.concat().starts_with(&t.concat()) && t.starts_with(&before), "{o:?} prints backtrace {t:02x?}, expected {now:02x?} or a stage of it");
                }
            }
            if check_now {
                ensure!(seen == now, "after {o:?} the backtrace is {seen:02x?}, expected {now:02x?}");
            }
        }
        let _ = cap.new_text();
        p.dump_state();
        let t = parse_all(&cap.new_text())?;
        ensure_eq!(t, vec![groups_of(&m)], "backtrace at the end of the history");
        Ok(())
    })();
    if m.groups.len() > 1 && (skips > 0 || fails > 0) {
        cx.nontrivial(&(format!("{ops:?}"), &d));
    }
    if fails > 0 {
        cx.class("with failures");
    }
    if skips > 0 {
        cx.class("with skips");
    }
    if m.groups.len() > 128 {
        cx.class("over 128 groups");
    }
    if dumps > 3 {
        cx.class("dumped along the way");
    }
    cx.note(|| format!("{} bytes: {}", d.len(), show(&ops)));
    res
}

/// The way it is used: failing inside a whole value, where the backtrace must
/// be the bytes read up to there.
pub fn whole_values(cx: &mut Cx) -> R {
    let d = data(&mut cx.s);
    let k = cx.s.draw(WHOLE as u64 - 1) as u8;
    let n = cx.s.range(1, 4);
    let mut cap = capture().lock().unwrap_or_else(|e| e.into_inner());
    cap.start();
    let mut p = MemoParser::from_buffer(VecBuffer::from(d.clone().roomy()));
    let mut failed = 0;
    let mut prev: Vec<Vec<u8>> = vec![];
    for i in 0..n {
        let o = Op::Whole(k.wrapping_add(i as u8 * 3) % WHOLE as u8);
        failed += apply(&mut p, &o).is_err() as usize;
        let _ = cap.new_text();
        p.dump_state();
        let t = parse_all(&cap.new_text())?;
        ensure_eq!(t.len(), 1, "backtraces printed by one dump_state");
        let flat: Vec<u8> = t[0].concat();
        ensure!(flat == d[..p.offset()], "after {o:?} the backtrace {:02x?} is not the consumed prefix {:02x?}", t[0], &d[..p.offset()]);
        ensure!(t[0].starts_with(&prev), "{o:?} alters earlier groups: {prev:02x?} became {:02x?}", t[0]);
        prev = t[0].clone();
    }
    if failed > 0 && !prev.is_empty() {
        cx.nontrivial(&(&d, k, n));
    }
    cx.note(|| format!("{n} values from {:02x?}", &d[..d.len().min(24)]));
    Ok(())
}
