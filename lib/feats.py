"""C23: the same declarations under different sets of crate features. FxAttr says which features a declaration needs; where they are
enabled the declaration has to have what FxAttr, FxSeq and FxSerde say, where they aren't it has to be refused."""
import copy, random
from common import *
import attr, build, rc, seq, serdes

SETS = [(), ("sync",), ("async",), ("serde",), ("sync", "serde")]
MORE = [("sync", "async"), ("async", "serde"), ("sync", "async", "serde"), ("sync", "async", "serde", "send_guard"), ("sync", "send_guard")]
LIB = attr.LIB.replace("#[derive(Debug, Default, Clone, Copy, PartialEq)] pub struct Tv", "#[derive(Debug, Default, Clone, Copy, PartialEq, serde::Serialize, serde::Deserialize)] pub struct Tv")


def declarations(rnd):
    pool, ts, _ = attr.good_decls(rnd, 420 if QUICK else 1500, 2, False)
    more = []
    for i, (D, R) in enumerate(pool):
        if i % 3:
            continue
        D2 = copy.deepcopy(D)
        D2["s"]["serde"] = "off" if i % 12 == 0 else "on"
        more.append(D2)
    t = attr.Tla(more)
    pool += [(D, r) for D, r in zip(more, t.res) if not r["contra"] and not r["unsettled"]]
    return pool, ts + [t]


def behaviours(rnd, feats, n):
    """structs for FxSeq: of the modes there are"""
    modes = ["plain"] + [m for m in ("sync", "async") if m in feats]
    out, ids = [], set()
    for p in ("C09", "C10", "C14", "C06", "C01", "C02", "C07"):
        for s in seq.suite(p):
            if s.mode in modes and s.id not in ids and not s.clones():
                ids.add(s.id)
                out.append(s)
    by = {m: [s for s in out if s.mode == m] for m in modes}
    out = []
    for m in modes:
        out += rnd.sample(by[m], min(n, len(by[m])))
    return out


def run(prop):
    check = Check(prop, "model_checking")
    rnd = random.Random(SEED * 17 + 23)
    exp = attr.explore(2)
    pool, ts = declarations(rnd)
    states, transitions = sum(t.distinct for t in ts), sum(t.generated for t in ts)
    traces = probed = replayed = accepted = refused = 0
    sets, sample = {}, []
    for feats in SETS + ([] if QUICK else MORE):
        name = "_".join(feats) or "none"
        F = set(feats)
        yes = [(D, R) for D, R in pool if R["needs"] <= F and R["perhaps"] <= F]
        no = [(D, R) for D, R in pool if not R["needs"] <= F]
        yes = rnd.sample(yes, min(len(yes), 50 if QUICK else 300))
        no = rnd.sample(no, min(len(no), 110 if QUICK else 800))
        if len(yes) < 20 or not no and len(F & {"sync", "async", "serde"}) < 3:
            raise ToolError("with %s: %d declarations to accept, %d to refuse" % (name, len(yes), len(no)))
        decls = [attr.Decl(i, D, R, rnd) for i, (D, R) in enumerate(yes)]
        probed += attr.probe(check, decls, 3, "with the features %s" % name, "attr_" + name, feats, LIB)
        accepted += len(decls)
        mods = attr.Mods("no_" + name, LIB, 3, feats)
        text = {}
        for i, (D, R) in enumerate(no):
            d = attr.Decl(i, D, R, rnd)
            mods.add(d.id, "mod %s { use crate::*; use fieldx::fxstruct;%s\n%s\n}" % (
                d.id, " use serde::{Serialize, Deserialize};" if "serde" in F else "", d.struct()))
            text[d.id] = (d.text(), D, R)
        if no:
            found = mods.check()
            for k, (tx, D, R) in text.items():
                if k not in found:
                    check.violate("accepted", "%s: needs %s, yet compiles with %s" % (tx, sorted(R["needs"]), sorted(F) or "no features"), {"declaration": D})
                elif not any(m in msg for m in R["needs"] - F for c, msg in found[k]):
                    check.violate("unnamed", "%s: needs %s, which the errors with %s do not say: %s" % (
                        tx, sorted(R["needs"] - F), sorted(F) or "no features", found[k][0][1]), {"declaration": D, "errors": found[k][:5]})
        refused += len(no)
        structs = behaviours(rnd, feats, 14 if QUICK else 60)
        covs = [seq.replay(check, prop, structs, "seq_" + name, feats)]
        modes = F | {"plain"}
        bs = [s for s in build.suite(rnd, 1) if s.mode in modes]
        covs.append(build.replay(check, prop, rnd, rnd.sample(bs, min(len(bs), 20 if QUICK else 100)), True, "build_" + name, feats))
        rs = [s for s in rc.structs() if s["mode"] in modes]
        covs.append(rc.replay(check, prop, rnd, rnd.sample(rs, min(len(rs), 4 if QUICK else 20)), "rc_" + name, feats))
        if "serde" in F:
            ss = [s for s in serdes.suite("C16", rnd, 1) + serdes.suite("C17", rnd, 1) if s.mode in F | {"plain"} and not s.probe]
            rnd.shuffle(ss)
            ss = ss[:24 if QUICK else 120]
            for i, s in enumerate(ss):
                s.id = "F%d" % i
            covs.append(serdes.replay(check, prop, rnd, ss, "serde_" + name, feats))
        for c in covs:
            states, transitions, traces = states + c["states"], transitions + c["transitions"], traces + c["traces_validated_against_impl"]
            replayed += sum(v for k, v in c.items() if k.endswith("calls_replayed"))
        sets[name] = {"accepted": len(decls), "refused": len(no), "behaving": sum(c["struct_configurations"] for c in covs)}
        sample += [{"features": name, "accepted": decls[0].text()}] + ([{"features": name, "refused": text["s0"][0]}] if no else [])
        note("%s done" % name)
    full = tlc_wait(exp, 800)
    if not full.ok:
        raise ToolError("TLC on FxAttr (exploration): " + full.out[-3000:])
    check.cov.update({"states": full.distinct + states, "transitions": full.generated + transitions,
                      "traces_validated_against_impl": traces + accepted + refused, "feature_sets": sets, "names_probed": probed,
                      "calls_replayed": replayed, "samples": sample[:6]})
    check.assumptions = ["mode(sync) and mode(async) that make no lock are not settled without their feature",
                         "any error at the declaration counts as its refusal"]
    return check.finish()
