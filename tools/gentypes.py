#!/usr/bin/env python3
"""Generates random compositions of the wire types and random record and enum
declarations, as a Rust module.

  tools/gentypes.py > harness/src/bin/codec/types_gen.rs     (the committed one)

The probe phases call generate() with other seeds."""
import random

COMMITTED = 20261119
RINT = ["u8, 0, 10", "u8, 0, 254", "u8, 3, 12", "i8, -5, 5", "i8, -128, -1", "u16, 0, 1000", "u16, 250, 260", "i16, -3000, 17",
        "u32, 0, 1000000", "u32, 100000, 100003", "i32, -1073741824, 1073741823", "i32, -7, 0", "i16, 9, 300", "i8, 1, 1"]
FIELDS = ["f", "p", "x", "y", "buf", "tag", "len", "pos0", "pos1", "val", "inner", "unknown", "write_to", "parse", "r#type", "r#match",
          "estimate", "known", "name", "other", "res", "acc", "_a", "b2", "f0", "f1", "self_", "state", "disc", "r#in"]


class Gen:
    def __init__(self, seed, commas=False):
        self.commas = commas
        self.R = random.Random(seed)
        self.S = random.Random(seed + 1)
        self.cs = []          # C-like enums
        self.recs = []        # (name, fixed, self-delimiting, non-empty, hashable)
        self.units = []
        self.enums = []       # (name, self-delimiting)
        self.out = []

    # ---- types.  h: usable as an enum payload (Hash, PartialOrd)
    def scalar(self, h, lenknown=False):
        R = self.R
        xs = ["bool", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u30", "i31"]
        if not h:
            xs.append("f64")
        k = R.random()
        if k < .5:
            return R.choice(xs)
        if k < .6 and self.cs:
            return R.choice(self.cs)
        if k < .66:
            rs = [r[0] for r in self.recs if r[1] and r[3] and (r[4] or not h)]
            if rs:
                return R.choice(rs)
        if k < .85:
            return f"RangedInt<{R.choice(RINT)}>"
        if not h and k < .92:
            return "RF%d" % R.randint(0, 2)
        return f"FixedBytes<{R.choice([1,2,4,20,32])}>" if R.random() < .6 else f"FixedString<{R.choice([1,3,5,16])}>"

    def known(self, d, h):
        """self-delimiting, of a fixed known width > 0"""
        R = self.R
        k = R.random()
        if d <= 0 or k < .45:
            return self.scalar(h)
        if k < .6:
            return f"FixSeq<{self.known(d-1,h)}, {R.randint(1,4)}>"
        if k < .75:
            return f"Padded<{self.known(d-1,h)}, {R.randint(0,4)}>"
        if k < .9:
            return f"Dynamic<{R.choice(['u8','u16','u30'])}, {self.known(d-1,h)}>"
        return f"AutoBox<{self.known(d-1,h)}>"

    def delim(self, d, h):
        """self-delimiting, never empty"""
        R = self.R
        k = R.random()
        if d <= 0:
            return R.choice([self.scalar(h), "N", "Z"])
        if k < .08:
            xs = [r[0] for r in self.recs if r[2] and r[3] and (r[4] or not h)] + [e[0] for e in self.enums if e[1]]
            if xs:
                return R.choice(xs)
        if k < .14:
            return R.choice(["N", "Z"])
        if k < .22:
            return self.known(d, h)
        if k < .40:
            return f"Option<{self.delim(d-1,h)}>"
        if k < .80:
            return f"Dynamic<{R.choice(['u8','u16','u30'])}, {self.anyt(d-1,h)}>"
        if k < .90:
            return f"FixSeq<{self.delim(d-1,h)}, {R.randint(1,3)}>"
        return f"AutoBox<{self.delim(d-1,h)}>"

    def anyt(self, d, h):
        R = self.R
        k = R.random()
        if d <= 0:
            xs = ["Bytes", "String", "()", "Vec<u8>", self.scalar(h)] + ([] if h else self.units)
            return R.choice(xs) if k < .7 else R.choice(["N", "Z"])
        if k < .20:
            return f"Sequence<{self.delim(d-1,h)}>"
        if k < .36:
            return f"LimSeq<{self.delim(d-1,h)}, {R.choice([1,2,3,8])}>"
        if k < .48:
            return f"VPadded<{self.anyt(d-1,h)}, {R.randint(0,5)}>"
        if k < .58:
            return f"Nullable<{self.delim(d-1,h)}>"
        if k < .66:
            return f"Option<{self.anyt(d-1,h)}>"
        if k < .74:
            return f"AutoBox<{self.anyt(d-1,h)}>"
        if k < .80:
            return R.choice(["Bytes", "String"])
        if k < .84:
            xs = [r[0] for r in self.recs if r[4] or not h] + [e[0] for e in self.enums]
            if xs:
                return R.choice(xs)
        return self.delim(d, h)

    def tags(self, w, n):
        R = self.R
        mx = {"u8": 255, "u16": 65535, "u32": 4294967295}[w]
        pool = list(range(0, 12)) + [mx, mx - 1, mx // 2, mx // 2 + 1] + [R.randint(0, mx) for _ in range(max(4, n - 8))]
        if w != "u8":
            pool += [255, 256, 257, 0x0102, 0x0201]
        pool = sorted(set(pool))
        ts = R.sample(pool, min(n, len(pool)))
        if R.random() < .15:
            ts = list(range(len(ts)))
        elif R.random() < .15:
            ts = sorted(ts, reverse=R.random() < .5)
        return ts

    def names(self, n):
        return self.R.sample(FIELDS, n) if self.R.random() < .7 else ["f%d" % i for i in range(n)]

    # ---- declarations
    def cstyle(self, i):
        R = self.R
        w = R.choice(["u8", "u8", "u16", "u32"])
        ts = self.tags(w, R.choice([1, 2, 3, 5, 9, 14, 40]))
        name = f"GC{i}"
        self.out.append(f"vcore::wire_cstyle!({name}, {w}, {{ " + ", ".join(f"V{j} = {t}" for j, t in enumerate(ts)) +
                        (", });" if self.commas and i % 2 == 0 else " });"))
        self.cs.append(name)
        return name, w

    def record(self, i):
        R = self.R
        n = R.choice([1, 1, 2, 2, 3, 4, 5, 6, 9, 12, 17])
        fixed = i % 4 == 0
        hsh = R.random() < .4
        greedy = not fixed and R.random() < .5
        if fixed:
            fs = [self.scalar(hsh) for _ in range(n)]
            if R.random() < .2:
                fs.insert(R.randint(0, n), "()")
        else:
            fs = [self.delim(R.choice([0, 1, 2]), hsh) for _ in range(n - 1)]
            fs.append(self.anyt(R.choice([1, 2, 3]), hsh) if greedy else self.delim(R.choice([0, 1, 2]), hsh))
        if self.S.random() < .4:
            # runs of one type
            at = self.S.randrange(len(fs) - 1 if greedy else len(fs)) if len(fs) > 1 or not greedy else None
            if at is not None:
                fs[at:at] = [fs[at]] * self.S.choice([1, 1, 2])
        name = f"GR{i}"
        pre = ("hashed " if hsh else "") + ("fixed " if fixed else "")
        ns = self.names(len(fs))
        body = ", ".join(f"{a}: {t}" for a, t in zip(ns, fs))
        if R.random() < .5:
            self.out.append(f"vcore::rec_named! {{ {pre}{name} {{ {body} }} }}")
        else:
            body = ", ".join(f"t{a}: {t}" for a, t in enumerate(fs))
            self.out.append(f"vcore::rec_tuple! {{ {pre}{name}({body}) }}")
        self.recs.append((name, fixed, not greedy, len(fs) > 1 or not greedy, hsh))

    def unit(self, i):
        d = self.R.choice(["Estimable", "FixedLength"])
        self.out.append(f"vcore::rec_unit! {{ {d} GU{i} {self.R.choice([';', '();', '{}'])} }}")
        self.units.append(f"GU{i}")

    def enum(self, i):
        R = self.R
        w = R.choice(["u8", "u16"])
        n = R.choice([1, 2, 3, 4, 5, 6, 10, 18])
        vs = []
        delim = True
        for j, t in enumerate(self.tags(w, n)):
            k = R.choice(["unit", "tuple", "tuple", "named"])
            m = 0 if k == "unit" else R.choice([1, 1, 2, 2, 3, 3, 4, 11, 13] if n < 10 else [1, 2, 3])
            # only the last field of a variant may be greedy
            fs = [self.delim(R.choice([0, 1, 2]), True) for _ in range(max(m - 1, 0))]
            if m:
                greedy = R.random() < .5
                fs.append(self.anyt(R.choice([1, 2]), True) if greedy else self.delim(R.choice([0, 1, 2]), True))
                delim = delim and not greedy
            ns = self.names(m) if k == "named" else ["t%d" % a for a in range(m)]
            vs.append(f"{t} => V{j} {k}(" + ", ".join(f"{a}: {b}" for a, b in zip(ns, fs)) + ")")
        self.out.append(f"vcore::wire_data! {{ GE{i}, {w}, ge{i}, {{ " + "; ".join(vs) + " } }")
        self.enums.append((f"GE{i}", delim))


def generate(seed, comps, recs, enums, cstyles, units, commas=False):
    g = Gen(seed, commas)
    R = g.R
    cs = [g.cstyle(i) for i in range(cstyles)]
    for i in range(units):
        g.unit(i)
    for i in range(max(recs, enums)):
        if i < recs:
            g.record(i)
        if i < enums:
            g.enum(i)
    types, seen = [], set()
    while len(types) < comps:
        t = g.anyt(R.choice([2, 3, 3, 4]), False)
        if t in seen or t.count("<") < 2:
            continue
        seen.add(t)
        types.append(t)
    o = ["//! Generated by tools/gentypes.py; do not edit.",
         "#![allow(non_camel_case_types, unused_imports, dead_code)]",
         "use crate::types::{RF0, RF1, RF2};\nuse vcore::wire::{entry, entry_fixed, Entry};\nuse tedium::*;\n"]
    o += g.out
    o.append("\nmacro_rules! with_generated {")
    o.append("    (cstyle $m:ident) => { $m! { " + ", ".join(f"{n}: {w}" for n, w in cs) + " } };")
    o.append("    (data $m:ident) => { $m! { " + ", ".join(e for e, _ in g.enums) + " } };")
    o.append("}\npub(crate) use with_generated;")
    o.append("\npub fn generated() -> Vec<Entry> {\n    let mut v = vec![];")
    for t in types:
        o.append(f'    v.push(entry::<{t}>("{t}"));')
    for n, _ in cs:
        o.append(f'    v.push(entry_fixed::<{n}>("{n}"));')
    for u in g.units:
        o.append(f'    v.push(entry_fixed::<{u}>("{u}"));')
    for r in g.recs:
        o.append(f'    v.push({"entry_fixed" if r[1] else "entry"}::<{r[0]}>("{r[0]}"));')
    for e, _ in g.enums:
        o.append(f'    v.push(entry::<{e}>("{e}"));')
        o.append(f'    v.push(entry::<Sequence<Dynamic<u16, {e}>>>("Sequence<Dynamic<u16, {e}>>"));')
    o.append("    v\n}")
    return "\n".join(o) + "\n"


if __name__ == "__main__":
    import sys
    seed = int(sys.argv[1]) if len(sys.argv) > 1 else COMMITTED
    sys.stdout.write(generate(seed, 70, 20, 10, 5, 3))
