"""C24: the forms of arguments of FxForms, compiled one by one."""
import json
import random

from attr import Mods
from common import Check, SEED, ToolError, note, tlc

LIB = r'''
pub struct E;
impl From<fieldx::error::FieldXError> for E { fn from(_: fieldx::error::FieldXError) -> Self { E } }
pub enum E2 { U(String), V(String), F(fieldx::error::FieldXError) }
impl From<fieldx::error::FieldXError> for E2 { fn from(e: fieldx::error::FieldXError) -> Self { E2::F(e) } }
'''
MOD = r'''mod %(id)s { use fieldx::{fxstruct}; use seq::*; use serde::{Serialize, Deserialize};
#[fxstruct(%(sargs)s)] #[derive(Clone, Debug)] pub struct S { #[fieldx(%(fargs)s)] pub a: %(ty)s, b: i32 }
impl S { fn build_a(&self) -> %(ret)s { todo!() } fn build_b(&self) -> %(ret)s { todo!() } %(zz)s
  fn post_build(self) -> Self { self } fn done(self) -> Self { self } }
}'''
SUB = {"public": "public", "pubcrate": "public(crate)", "pubsuper": "public(super)", "pubin": 'public(in_mod = "crate")', "attributes_fn": "attributes_fn(inline)",
       "attributes": "attributes(allow(dead_code))", "attributes_impl": "attributes_impl(allow(dead_code))", "required_off": "required(off)",
       "post_build_name": "post_build(done)", "error": "error(E)", "serialize_off": "serialize(off)", "deserialize_off": "deserialize(off)",
       "sdefault": "default", "forward_attrs": "forward_attrs(allow)", "in_mod": 'in_mod = "crate"', "error2": "error(E2, E2::U)",
       "off_lit": 'off("zz")', "off_bool": "off(true)", "private_lit": 'private("zz")', "private_bool": "private(false)", "public_unknown": "public(zork)",
       "public_two": "public(crate, super)", "public_lit": 'public("crate")', "in_mod_word": "public(in_mod)", "in_mod_lit": "public(in_mod = 5)",
       "into_lit": 'into("zz")', "into_word": "into(zork)", "required_lit": 'required("zz")', "required_bool": "required(false)", "opt_in_lit": 'opt_in("zz")',
       "post_build_two": "post_build(done, post_build)", "post_build_lit": 'post_build("done")', "error_none": "error()", "error_three": "error(E2, E2::U, E2::V)",
       "error_lit": 'error("E")', "serialize_lit": 'serialize("zz")', "serialize_bool": "serialize(false)", "deserialize_lit": 'deserialize("zz")',
       "deserialize_bool": "deserialize(false)", "clone_lit": 'clone("zz")', "copy_bool": "copy(false)"}
LIT = {"int": "5", "float": "5.5", "char": "'c'", "bytes": 'b"zz"', "true": "true", "false": "false"}
TY = {"str": "String", "float": "f64", "char": "char", "bytes": "&'static [u8; 2]", "true": "bool", "false": "bool"}


def write(a, f, s, t):
    n = "r#async" if a == "async" else a
    sub = SUB.get(s, s)
    if f in LIT:
        return "%s(%s)" % (n, LIT[f])
    if f == "pair":
        return "%s(%s, %s)" % (n, sub, SUB.get(t, t))
    return {"wordlit": "%s(zork, 5)", "twolits": "%s(5, 6)", "offlits": "%s(off, 5, 6)", "offlit": "%s(off, 5)", "offoff": "%s(off, off)", "eqstr": '%s = "zz_"',
            "eqint": "%s = 5", "eqtrue": "%s = true", "eqword": "%s = zork", "eqsub": "%s(zork = 5)", "word": "%s", "str": '%s("zz_")', "str2": '%s("p_", "q_")', "unknown": "%s(zork)", "unknownval": "%s(zork(5))",
            "names2": '%s("p_"), %s("q_")', "sub": "%%s(%s)" % sub, "offsub": "%%s(off, %s)" % sub, "strsub": '%%s("zz_", %s)' % sub}[f].replace("%s", n)


def question(i, l, a, f, s, t, rnd):
    arg = write(a, f, s, t)
    sargs, fargs = [], []
    (sargs if l == "s" else fargs).append(arg)
    if a in ("reader", "writer", "lock"):
        sargs.append("sync")
    if a == "fallible" and s != "off" and f != "offsub" and (l == "f" or s):
        fargs.append("lazy")
        if not s:
            sargs.append("fallible(off, error(E))") if l == "f" else None
    # what doesn't matter to the question
    rnd.random() < 0.3 and a != "get" and sargs.append("get") if l == "f" else None
    rnd.random() < 0.3 and a not in ("get", "builder") and sargs.append("builder") if a not in ("builder",) and l == "f" else None
    rnd.shuffle(sargs)
    rnd.shuffle(fargs)
    fall = "fallible" in arg and "lazy" in fargs
    return MOD % dict(id="m%d" % i, sargs=", ".join(sargs), fargs=", ".join(fargs), ty=TY.get(f, "i32") if (l, a) == ("f", "default") else "i32",
                      zz="".join("fn %s(&self) -> i32 { todo!() } " % z for z in ("zz_", "zz_a", "zz_b")) if a == "lazy" else "", ret="Result<i32, E>" if fall else "i32"), "#[fxstruct(%s)] struct { #[fieldx(%s)] a, b }" % (", ".join(sargs), ", ".join(fargs))


def run(prop):
    check = Check(prop, "model_checking")
    rnd = random.Random(SEED)
    r = tlc("FxForms.tla", "FxForms.cfg", mem="4g", workers=4)
    if not r.ok:
        raise ToolError("TLC on FxForms: " + r.out[-3000:])
    qs = []
    for line in r.out.splitlines():
        if line.startswith('"[\\"Q\\"'):
            qs.append(tuple(json.loads(json.loads(line))[1:]))
    if len(qs) < 1000:
        raise ToolError("no questions in TLC's output: " + r.out[-2000:])
    qs.sort()
    yes, no, text = Mods("formsgood", LIB, 8), Mods("formsbad", LIB, 8), {}
    for i, (l, a, f, s, t, ok) in enumerate(qs):
        src, text["m%d" % i] = question(i, l, a, f, s, t, rnd)
        (yes if ok else no).add("m%d" % i, src)
    for i, src in enumerate(('#[fxstruct("zz")] pub struct S { a: i32 }', "#[fxstruct(5)] pub struct S { a: i32 }", "#[fxstruct(get, 5)] pub struct S { a: i32 }",
                             '#[fxstruct] pub struct S { #[fieldx("zz")] a: i32 }', '#[fxstruct] pub struct S { #[fieldx(get, "zz")] a: i32 }',
                             "#[fxstruct] pub enum S { A { a: i32 } }", "#[fxstruct(get)] pub struct S(i32);", "#[fxstruct(get)] pub union S { a: i32 }")):
        text["i%d" % i] = src
        no.add("i%d" % i, "mod i%d { use fieldx::fxstruct; %s }" % (i, src))
    note("%d forms to accept, %d to refuse" % (len(yes.mods), len(no.mods)))
    f = yes.check()
    for k, es in f.items():
        check.violate("refused", "%s: a documented form, yet does not compile: %s" % (text[k], es[0][1]), {"errors": es[:5]})
    f = no.check()
    for k, _ in no.mods:
        if k not in f:
            check.violate("accepted", "%s: not a form of the argument, yet compiles" % text[k], {})
    check.cov.update({"states": r.distinct, "transitions": r.generated, "traces_validated_against_impl": len(qs),
                      "forms_that_must_compile": len(yes.mods), "forms_that_must_be_refused": len(no.mods),
                      "samples": [text[yes.mods[0][0]], text[no.mods[0][0]]]})
    check.assumptions = ["any error at the declaration counts as its rejection"]
    return check.finish()
