"""Which worker phases decide which property."""

# Scale of a phase: per cent of the case counts written in the worker's targets.
Q = {"quick": 1200, "thorough": 12000}
B = {"quick": 45, "thorough": 600}

# Feature groups that may be combined in one build.
STORAGE = ["arrayvec_fixseq", "arrayvec_limseq", "smallvec_framestack"]
SIZING = ["enc_len_estimable_override", "relaxed_padding_invariant", "invalid_range_checking"]
OTHER = ["serde_impls", "index_binary_formatting", "unfreeze_spanbuffer"]


def ph(name, bin_="codec", **kw):
    d = {"name": name, "bin": bin_, "scale": dict(Q), "budget": dict(B)}
    for k, v in kw.items():
        d[k] = v
    return d


def scaled(q, t=None):
    return {"quick": q, "thorough": t or q * 3}


PLAN = {}


def add(pid, phases, rule="", assumptions=()):
    PLAN[pid] = {"phases": phases, "rule": rule, "assumptions": list(assumptions)}


def phases_for(pid, tier):
    return [p for p in PLAN[pid]["phases"] if tier in p.get("tiers", ("quick", "thorough"))]


def misc(name="misc", **kw):
    return ph(name, bin_="misc", **kw)


for pid in ("C01", "C02", "C03", "C04", "C05", "C09", "C29", "C30", "C34", "C35", "C36"):
    add(pid, [ph("codec")])
for pid in ("C18", "C19"):
    add(pid, [ph("codec"), ph("forms", probe="shapes", shapes=pid.lower() + "_"),
              ph("declarations", probe="declarations", rounds={"quick": 1, "thorough": 12}, scale={"quick": 300, "thorough": 600})])
for pid in ("C08", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C20", "C23", "C25", "C26", "C27"):
    add(pid, [misc()])
for pid in ("C06", "C24", "C28"):
    add(pid, [ph("codec"), misc()])
# (the padding an error reports exists only when padding is checked)
PLAN["C24"]["phases"].append(ph("check_padding", features=["check_padding"], scale={"quick": 300, "thorough": 3000}, budget={"quick": 20, "thorough": 200}))
add("C07", [ph("codec"), ph("codec-unchecked", profile="unchecked"), misc(prop="C08"), misc("misc-unchecked", prop="C08", profile="unchecked")])
add("C21", [
    ph("default"),
    ph("check_complete_parse", features=["check_complete_parse"]),
    ph("check_padding", features=["check_padding"]),
    ph("both", features=["check_complete_parse", "check_padding"]),
    misc("ranges-unchecked"),
    misc("invalid_range_checking", features=["invalid_range_checking"]),
])
# Deeper: the same searches over freshly generated declarations and nestings.
for pid in ("C01", "C02", "C03", "C05", "C06", "C09", "C24", "C29", "C30"):
    PLAN[pid]["phases"].append(ph("declarations", probe="declarations", tiers=["thorough"], sizes=(60, 20, 10, 4, 3), rounds={"quick": 1, "thorough": 8},
                                  scale={"quick": 300, "thorough": 600}))
PLAN["C36"]["phases"].append(ph("storage", features=STORAGE, scale={"quick": 400, "thorough": 4000}, budget={"quick": 20, "thorough": 200}))
PLAN["C34"]["phases"].append(ph("sizing", features=SIZING, scale={"quick": 400, "thorough": 4000}, budget={"quick": 20, "thorough": 200}))
# Without debug assertions and overflow checks, as a release build is.
U = {"quick": 400, "thorough": 4000}
for pid, p in PLAN.items():
    bins = sorted({q["bin"] for q in p["phases"] if not q.get("probe")})
    if pid not in ("C07", "C21"):
        p["phases"] += [ph("unchecked-" + b, bin_=b, profile="unchecked", scale=dict(U), budget={"quick": 20, "thorough": 200}) for b in bins]
HEXIN = ["implicit_hexstring"]
S2 = {"quick": 300, "thorough": 1500}
add("C22", [
    ph("storage", features=STORAGE),
    misc("storage-sequences", prop="C15", features=STORAGE, scale=S2),
    misc("storage-histories", prop="C08", features=STORAGE, scale=S2),
    misc("storage-parsers", prop="C06", features=STORAGE, scale=S2),
    misc("storage-cleanup", prop="C10", features=STORAGE, scale=S2),
    ph("sizing", features=SIZING),
    misc("sizing-prefixes", prop="C23", features=SIZING, scale=S2),
    misc("sizing-ranges", prop="C12", features=SIZING, scale=S2),
    ph("other", features=OTHER),
    misc("other-builders", prop="C17", features=OTHER, scale=S2),
    misc("other-backtrace", prop="C26", features=OTHER, scale=S2),
    ph("hex-input", features=HEXIN),
    misc("hex-input-text", prop="C28", features=HEXIN, scale=S2),
    misc("hex-input-buffers", prop="C27", features=HEXIN, scale=S2),
])
# Each switch alone, for what only a single one lets through.
for f in STORAGE + SIZING + OTHER[:1]:
    PLAN["C22"]["phases"].append(ph("alone-" + f, features=[f], tiers=["thorough"], scale=scaled(300, 600)))
    # (the misc worker has paddings around values of variable length, which the length computation allows only when relaxed)
    fs = [f, "relaxed_padding_invariant"] if f == "enc_len_estimable_override" else [f]
    PLAN["C22"]["phases"].append(misc("alone-sequences-" + f, prop="C15", features=fs, tiers=["thorough"], scale=scaled(300, 600)))
PLAN["C21"]["phases"].append(ph("both-unchecked", features=["check_complete_parse", "check_padding"], profile="unchecked", tiers=["thorough"], scale=dict(U)))
INSIDE = ["expose_internal", "index_binary_formatting", "serde_impls"]
for pid in ("C31", "C32", "C33"):
    add(pid, [misc("inside", features=INSIDE), misc("inside-unchecked", features=INSIDE, profile="unchecked", scale=dict(U))])
# Cheap cases: five times as many of them.
for pid in ("C04", "C08", "C09", "C10", "C11", "C13", "C15", "C17", "C20", "C23", "C27", "C29", "C30", "C32", "C33", "C36"):
    for q in PLAN[pid]["phases"]:
        if not q.get("probe"):
            q["scale"]["quick"] *= 5
