//! Tagged enums (C18), derived records (C19) and a few type-level extras.
use crate::props::{hex, reg, short};
use crate::types::*;
use crate::types_gen::*;
use tedium::parse::error::{ParseError, TokenError};
use tedium::*;
use vcore::engine::Target;
use vcore::engine::*;
use vcore::model::*;
use vcore::wire::*;
use vcore::{ensure, ensure_eq};

struct Table {
    name: &'static str,
    width: usize,
    tag_of: fn(&Val) -> u64,
    all: fn() -> Vec<u64>,
    valid: fn(u64) -> bool,
    name_of: fn(u64) -> Option<&'static str>,
    /// numeric conversion, for C-like enums: the variant or (shown error)
    convert: Option<fn(u64) -> Result<Val, (Option<u64>, Option<Vec<u64>>, String)>>,
}
impl Table {
    fn entry(&self) -> &'static Entry {
        reg().iter().find(|e| e.name == self.name).expect("registered")
    }
    fn vars(&self) -> &'static [(u64, Vec<Sch>, &'static str)] {
        match &self.entry().sch {
            Sch::Enum(_, v) => v,
            _ => panic!("harness: not an enum"),
        }
    }
}
fn tables() -> Vec<Table> {
    let mut v = vec![];
    macro_rules! t {
        ($conv:expr; $n:ident) => {
            v.push(Table {
                name: stringify!($n),
                width: <$n as TagTable>::width(),
                tag_of: |v| <$n as TagTable>::tag_of(&$n::from_val(v)),
                all: <$n as TagTable>::all_tags,
                valid: <$n as TagTable>::valid,
                name_of: <$n as TagTable>::name_of,
                convert: $conv,
            });
        };
    }
    macro_rules! c { ($($n:ident: $w:ident),*) => { $( t!(Some(|x| match $n::try_from(x as $w) {
        Ok(v) => Ok(v.to_val()),
        Err(e) => Err((crate::props::dbg_tag(&e), crate::props::dbg_tags(&e), e.to_string())),
    }); $n); )* } }
    macro_rules! d { ($($n:ident),*) => { $( t!(None; $n); )* } }
    c!(Bit: u8, Prime: u8, Edge8: u8, Single: u8, Many: u8, Full: u8, Dense: u8, Dense16: u16, Wide16: u16, Unsorted16: u16, Wide32: u32);
    d!(Shape, Op, AllUnit, Padv, Outer, Shape2, Ladder, Expr);
    with_generated!(cstyle c);
    with_generated!(data d);
    v
}

/// Everything that is said about one number under one declaration.
fn judge(t: &Table, tag: u64, cx: &mut Cx) -> R {
    let vars = t.vars();
    let decl = vars.iter().position(|v| v.0 == tag);
    cx.nontrivial(&(t.name, tag));
    cx.note(|| format!("{} tag {tag} ({})", t.name, decl.map_or("undeclared", |i| vars[i].2)));
    cx.class(if decl.is_some() { "tag: declared" } else { "tag: undeclared" });
    ensure_eq!((t.valid)(tag), decl.is_some(), "is_valid_tag({tag})");
    ensure_eq!((t.name_of)(tag), decl.map(|i| vars[i].2), "get_name({tag})");
    let declared = {
        let mut d: Vec<u64> = vars.iter().map(|v| v.0).collect();
        d.sort();
        d
    };
    if let Some(f) = t.convert {
        match (f(tag), decl) {
            (Ok(Val::Var(i, _)), Some(j)) => ensure!(i == j, "converting {tag} gives variant {} instead of {}", vars[i].2, vars[j].2),
            (Ok(v), _) => return Err(format!("converting undeclared {tag} gives {v:?}")),
            (Err(e), Some(_)) => return Err(format!("converting declared {tag} fails: {}", e.2)),
            (Err((a, ts, shown)), None) => {
                ensure!(a.is_none_or(|a| a == tag), "tag carried by the conversion error: {a:?}");
                if let Some(mut ts) = ts {
                    ts.sort();
                    ensure_eq!(ts, declared, "valid tags carried by the conversion error");
                }
                ensure!(shown.contains(&format!("{tag:x}")) || shown.contains(&tag.to_string()), "error text {shown:?} does not show {tag}");
            }
        }
    }
    // decoding: the tag, then whatever a payload may be
    let e = t.entry();
    let mut buf = vec![];
    be(tag as i128, t.width, &mut buf);
    let mut want = None;
    match decl {
        Some(i) => {
            let v = Val::Var(i, vars[i].1.iter().map(|s| gen_val(&mut cx.s, s, 30)).collect());
            buf = encode(&e.sch, &v);
            // greedy and suffix-reserving payloads are judged elsewhere
            if reserve_of(&e.sch, &v) == 0 && recoverable(&e.sch, &v) {
                want = Some(v);
            }
        }
        None => {
            let n = cx.s.range(0, 8);
            buf.extend(cx.s.bytes(n));
        }
    }
    for k in KINDS {
        let o = e.ops.decode(k, &buf, &Around::default());
        match (o.res, decl) {
            (Ok(v), Some(i)) => {
                ensure!(matches!(&v, Val::Var(j, _) if *j == i), "{k:?}: tag {tag} decoded as {}", short(&v));
                if let Some(w) = &want {
                    ensure!(*w == v, "{k:?}: {} decoded as {} instead of {}", hex(&buf), short(&v), short(w));
                }
            }
            (Err(x), Some(_)) => ensure!(want.is_none(), "{k:?}: {} with the declared tag {tag} rejected: {x:?}", hex(&buf)),
            (Ok(v), None) => return Err(format!("{k:?}: undeclared tag {tag} decoded as {}", short(&v))),
            (Err(x), None) => {
                let (a, ts) = match &x {
                    ParseError::Token(TokenError::InvalidTagU8(t)) => (crate::props::dbg_tag(t), crate::props::dbg_tags(t)),
                    ParseError::Token(TokenError::InvalidTagU16(t)) => (crate::props::dbg_tag(t), crate::props::dbg_tags(t)),
                    ParseError::Token(TokenError::InvalidTagU30(t)) => (crate::props::dbg_tag(t), crate::props::dbg_tags(t)),
                    _ => return Err(format!("{k:?}: undeclared tag {tag} rejected with another error: {x:?}")),
                };
                ensure!(a.is_none_or(|a| a == tag), "{k:?}: tag carried by the error: {a:?} instead of {tag}");
                if let Some(mut ts) = ts {
                    ts.sort();
                    ensure_eq!(ts, declared, "{k:?}: valid tags carried by the error");
                }
            }
        }
    }
    Ok(())
}
fn values(t: &Table, cx: &mut Cx) -> R {
    let e = t.entry();
    let vars = t.vars();
    let v = gen_val(&mut cx.s, &e.sch, 120);
    let Val::Var(i, fs) = &v else { return Err("harness".into()) };
    let (tag, tys, name) = &vars[*i];
    cx.nontrivial(&(t.name, &v));
    cx.note(|| format!("{} {name} {}", t.name, short(&v)));
    ensure_eq!((t.tag_of)(&v), *tag, "get_tagval of {name}");
    let mut want = vec![];
    be(*tag as i128, t.width, &mut want);
    for (s, f) in tys.iter().zip(fs) {
        want.extend(encode(s, f));
    }
    for (w, b) in e.ops.encodings(&v) {
        ensure!(b == want, "{w}: {name} encodes to {} instead of {}", hex(&b), hex(&want));
    }
    let mut all = (t.all)();
    all.sort();
    let mut decl: Vec<u64> = vars.iter().map(|v| v.0).collect();
    decl.sort();
    ensure_eq!(all, decl, "iter_tags");
    Ok(())
}

pub fn targets() -> Vec<Target> {
    let mut out = vec![];
    for t in tables() {
        let t: &'static Table = Box::leak(Box::new(t));
        match t.width {
            1 => out.push(enumerated(format!("{}: every tag", t.name), 256, move |cx, i| judge(t, i, cx))),
            2 => {
                // all 65536 numbers in blocks, so that one case is a block
                out.push(enumerated(format!("{}: every tag", t.name), 65536, move |cx, i| judge(t, i, cx)))
            }
            _ => out.push(target(format!("{}: tags", t.name), 4000, 200_000, move |cx| {
                let vars = t.vars();
                let max = (1u64 << (8 * t.width)) - 1;
                let tag = match cx.s.weighted(&[3, 3, 2]) {
                    0 => cx.s.pick(vars).0,
                    1 => (cx.s.pick(vars).0 ^ (1u64 << cx.s.range(0, 8 * t.width - 1))) & max,
                    _ => cx.s.draw(max),
                };
                judge(t, tag, cx)
            })),
        }
        out.push(target(format!("{}: declared tags", t.name), 600, 20_000, move |cx| {
            let tag = cx.s.pick(t.vars()).0;
            judge(t, tag, cx)
        }));
        out.push(target(format!("{}: values", t.name), 400, 20_000, move |cx| values(t, cx)));
    }
    out
}

/// C24: what the errors for numbers without a variant say.
pub fn undeclared() -> Vec<Target> {
    tables()
        .into_iter()
        .map(|t| {
            let t: &'static Table = Box::leak(Box::new(t));
            target(format!("{}: undeclared tags", t.name), 150, 10_000, move |cx| {
                let vars = t.vars();
                let max = (1u64 << (8 * t.width)) - 1;
                let near = cx.s.pick(vars).0;
                let mut tag = match cx.s.weighted(&[2, 2, 2]) {
                    0 => (near + 1) & max,
                    1 => (near ^ (1u64 << cx.s.range(0, 8 * t.width - 1))) & max,
                    _ => cx.s.draw(max),
                };
                // the next undeclared number, if there is one at all
                for _ in 0..vars.len() {
                    if vars.iter().any(|v| v.0 == tag) {
                        tag = (tag + 1) & max;
                    }
                }
                judge(t, tag, cx)
            })
        })
        .collect()
}

// ---------------------------------------------------------------- C19

pub fn record(e: &'static Entry, cx: &mut Cx) -> R {
    let fields = e.ops.fields();
    // a value: concatenation and sums
    let v = gen_val(&mut cx.s, &e.sch, 150);
    let Val::List(fs) = &v else { return Err("harness".into()) };
    cx.note(|| format!("{} value {}", e.name, short(&v)));
    ensure_eq!(fields.len(), fs.len(), "harness: field count");
    let parts: Vec<Vec<u8>> = fields.iter().zip(fs).map(|(f, x)| (f.plain)(x)).collect();
    let want = parts.concat();
    cx.nontrivial(&(e.name, &want));
    let mut t = AnyTarget::new(0);
    let n = e.ops.write_any(&v, &mut t);
    let got = t.contents().unwrap();
    ensure!(got == want, "encodes to {} but its fields to {}", hex(&got), parts.iter().map(|p| hex(p)).collect::<Vec<_>>().join(" "));
    ensure_eq!(n, want.len(), "count returned by writing");
    let sum: usize = fields.iter().zip(fs).map(|(f, x)| (f.estimate)(x)).sum();
    for (w, l) in e.ops.lengths(&v) {
        if w == "estimate" || w == "unknown" {
            ensure_eq!(l, sum, "{w} against the sum of the fields' estimates");
        }
    }
    let known: Option<usize> = fields.iter().try_fold(0, |a, f| f.known.map(|k| a + k));
    ensure_eq!(e.ops.known(), known, "KNOWN against the fields'");
    if let Some(l) = e.ops.fixed() {
        ensure_eq!(Some(l), known, "LEN against the fields'");
    }
    // an input: field after field
    let (buf, cls) = gen_input(&mut cx.s, &e.sch);
    cx.class(cls);
    for k in KINDS {
        let mut p = AnyParser::new(k, &buf, 1 << 20);
        let whole = e.ops.parse_any(&mut p);
        let mut q = AnyParser::new(k, &buf, 1 << 20);
        let mut vals = vec![];
        let mut fail = None;
        for f in &fields {
            match (f.parse)(&mut q) {
                Ok(x) => vals.push(x),
                Err(x) => {
                    fail = Some((f.ty, x));
                    break;
                }
            }
        }
        match (whole, fail) {
            (Ok(w), None) => {
                ensure!(w == Val::List(vals.clone()), "{k:?}: {} decodes as {} but field by field as {:?}", hex(&buf), short(&w), vals);
                ensure_eq!(p.remainder(), q.remainder(), "{k:?}: bytes left after {}", hex(&buf));
            }
            (Err(x), Some((_, y))) => ensure_eq!(format!("{x:?}"), format!("{y:?}"), "{k:?}: error against the failing field's"),
            (Ok(w), Some((f, y))) => return Err(format!("{k:?}: {} accepted as {} although field {f} fails: {y:?}", hex(&buf), short(&w))),
            (Err(x), None) => return Err(format!("{k:?}: {} rejected ({x:?}) although every field decodes", hex(&buf))),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- extras

/// `write_all_to!` writes its arguments one after the other.
pub fn write_all(cx: &mut Cx) -> R {
    let a = cx.s.draw(u64::MAX) as u16;
    let b = gen_val(&mut cx.s, &Sch::Opt(Box::new(Sch::Int(4, true))), 10);
    let n = cx.s.small_len();
    let c = cx.s.bytes(n);
    let d = gen_big(&mut cx.s, true);
    let mut want = vec![0x55];
    want.extend(encode(&Sch::Int(2, false), &Val::Int(a as i128)));
    want.extend(encode(&Sch::Opt(Box::new(Sch::Int(4, true))), &b));
    want.extend(encode(&Sch::Dyn(Pref::U16, Box::new(Sch::Bytes)), &Val::Bytes(c.clone())));
    want.extend(encode(&Sch::Z, &Val::Big(d.clone())));
    cx.nontrivial(&want);
    cx.note(|| hex(&want));
    let (x, y, z) = (Option::<i32>::from_val(&b), Dynamic::<u16, Bytes>::new(Bytes::from(&c[..])), Z(d));
    for k in 0..4 {
        let mut t = AnyTarget::new(k);
        tedium::Target::push_one(&mut t, 0x55);
        let r = tedium::write_all_to!(a, x, y, z => &mut t);
        ensure_eq!(t.contents().unwrap(), want, "{}", TARGETS[k]);
        ensure_eq!(r, want.len() - 1, "{}: count", TARGETS[k]);
    }
    Ok(())
}
/// Length information of plain containers.
pub fn containers(cx: &mut Cx) -> R {
    let n = cx.s.small_len();
    let b = cx.s.bytes(n);
    let txt = gen_text(&mut cx.s, n.min(30));
    cx.nontrivial(&(&b, &txt));
    cx.note(|| format!("{} bytes, text {txt:?}", b.len()));
    let words: Vec<u16> = b.iter().map(|x| *x as u16).collect();
    ensure_eq!(b.estimate(), b.to_bytes().len(), "Vec<u8>");
    ensure_eq!((&b[..]).estimate(), b.len(), "&[u8]");
    ensure_eq!(txt.estimate(), txt.to_bytes().len(), "String");
    ensure_eq!((&txt[..]).estimate(), txt.len(), "&str");
    ensure_eq!(std::borrow::Cow::Borrowed(&txt[..]).estimate(), txt.len(), "Cow<str>");
    let each: usize = words.iter().map(|w| w.to_bytes().len()).sum();
    ensure_eq!(words.estimate(), each, "Vec<u16>");
    ensure_eq!((&words[..]).estimate(), each, "&[u16]");
    ensure_eq!([1u16, 2, 3].estimate(), 6, "[u16; 3]");
    ensure_eq!(<[i64; 5] as FixedLength>::LEN, 40, "[i64; 5]");
    ensure_eq!(<[(); 5] as FixedLength>::LEN, 0, "[(); 5]");
    Ok(())
}
