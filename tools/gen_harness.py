#!/usr/bin/env python3
"""Writes harness/src/gen.rs: derived types and, independently of the derive
macros, what they must do (names, field routing, defaults, skipping)."""
import os, random

R = random.Random(20240607)
RULES = ["lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"]


def cap(w):
    return w[:1].upper() + w[1:]


def field_name(ident, rule):
    n = ident[2:] if ident.startswith("r#") else ident
    words = n.split("_")
    return {
        None: n, "lowercase": n, "snake_case": n, "UPPERCASE": n.upper(), "SCREAMING_SNAKE_CASE": n.upper(),
        "PascalCase": "".join(map(cap, words)), "camelCase": words[0] + "".join(map(cap, words[1:])),
        "kebab-case": "-".join(words), "SCREAMING-KEBAB-CASE": "-".join(words).upper(),
    }[rule]


def variant_name(ident, rule):
    n = ident[2:] if ident.startswith("r#") else ident
    words = []
    for ch in n:
        if ch.isupper() or not words:
            words.append(ch)
        else:
            words[-1] += ch
    low = [w.lower() for w in words]
    return {
        None: n, "PascalCase": n, "lowercase": n.lower(), "UPPERCASE": n.upper(), "camelCase": n[:1].lower() + n[1:],
        "snake_case": "_".join(low), "SCREAMING_SNAKE_CASE": "_".join(low).upper(), "kebab-case": "-".join(low),
        "SCREAMING-KEBAB-CASE": "-".join(low).upper(),
    }[rule]


def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\0", "\\0") + '"'


out = []
STRUCTS, ENUMS, NEW = {}, {}, {}
BASE = {
    "u8": ("7", "1"), "i32": ("-70", "2"), "bool": ("true", "false"), "String": ('"dflt".to_string()', '"lit".to_string()'), "char": ("'d'", "'l'"),
    "Option<u8>": ("Some(9)", "None"), "Option<String>": ("None", "Some(String::new())"), "Vec<u8>": ("vec![1, 2]", "vec![3]"),
    "Vec<u16>": ("vec![300]", "vec![]"), "BTreeMap<String, u8>": ("BTreeMap::new()", "BTreeMap::from([(\"k\".to_string(), 3)])"),
    "(u8, bool)": ("(4, true)", "(5, false)"), "Option<Vec<bool>>": ("Some(vec![])", "None"), "Box<u8>": ("Box::new(3)", "Box::new(4)"),
    "[u8; 2]": ("[1, 2]", "[3, 4]"), "u64": ("77", "78"), "()": ("()", "()"),
}
NODEFAULT = {"()"}


def lit(ty, k=1):
    if ty in BASE:
        return BASE[ty][k]
    for w, p in (("Option<", "Some(%s)"), ("Box<", "Box::new(%s)"), ("Vec<", "vec![%s]")):
        if ty.startswith(w):
            return p % lit(ty[len(w):-1], k)
    if ty in NEW:
        return "%s(%s)" % (ty, lit(NEW[ty], k))
    if ty in ENUMS:
        return "%s::%s" % (ty, ENUMS[ty][0])
    return "lit_%s()" % ty


class Field:
    def __init__(self, ident, ty, rename=None, aliases=(), default=None, flatten=False, skip_if=None):
        self.__dict__.update(ident=ident, ty=ty, rename=rename, aliases=list(aliases), default=default, flatten=flatten, skip_if=skip_if)


def struct(name, fields, rule=None, default=None, skip_opt=False, rename=None):
    """default: None | 'trait' | 'path'"""
    o = []
    attrs = []
    if rule:
        attrs.append('rename_all = "%s"' % rule)
    if rename:
        attrs.append("rename = %s" % q(rename))
    if default == "trait":
        attrs.append("default")
    if default == "path":
        attrs.append('default = "mk_%s"' % name)
    if skip_opt:
        attrs.append("skip_serializing_optionals")
    if attrs and len(name) % 2:
        for a in attrs:
            o.append("#[deser(%s)]" % a)
    elif attrs:
        o.append("#[deser(%s)]" % ", ".join(attrs))
    o.insert(0, "#[derive(Serialize, Deserialize, Debug, PartialEq)]")
    o.append("pub struct %s {" % name)
    for f in fields:
        a = []
        if f.rename is not None:
            a.append("rename = %s" % q(f.rename))
        for x in f.aliases:
            a.append("alias = %s" % q(x))
        if f.default == "implicit":
            a.append("default")
        if f.default == "path":
            a.append('default = "dflt_%s_%s"' % (name, f.ident.replace("r#", "")))
        if f.flatten:
            a.append("flatten")
        if f.skip_if:
            a.append('skip_serializing_if = "crate::derive::skip_hash"')
        if a:
            o.append("    #[deser(%s)]" % ", ".join(a))
        o.append("    pub %s: %s," % (f.ident, f.ty))
    o.append("}")
    names = {}
    for f in fields:
        f.name = f.rename if f.rename is not None else field_name(f.ident, rule)
        if not f.flatten:
            for n in [f.name] + f.aliases:
                assert n not in names, (name, n)
                names[n] = f
    for f in fields:
        if f.default == "path":
            o.append("fn dflt_%s_%s() -> %s { %s }" % (name, f.ident.replace("r#", ""), f.ty, lit(f.ty, 0)))
    body = ", ".join("%s: %s" % (f.ident, lit(f.ty)) for f in fields)
    o.append("fn lit_%s() -> %s { %s { %s } }" % (name, name, name, body))
    if default == "trait":
        o.append("impl Default for %s { fn default() -> Self { lit_%s() } }" % (name, name))
    if default == "path":
        o.append("fn mk_%s() -> %s { lit_%s() }" % (name, name, name))
    flats = [f for f in fields if f.flatten]
    own = [f for f in fields if not f.flatten]
    # what deserialization must do
    o.append("impl Strukt for %s {" % name)
    o.append("    fn lit() -> Self { lit_%s() }" % name)
    o.append("    fn known(k: &str) -> bool { match k { %s _ => %s } }" % (
        "".join("%s => true, " % q(n) for n in names), " || ".join("<%s as Strukt>::known(k)" % f.ty for f in flats) or "false"))
    o.append("    fn keys() -> Vec<&'static str> { let mut v: Vec<&'static str> = vec![%s]; %s v }" % (
        ", ".join(q(n) for n in names), " ".join("v.extend(<%s as Strukt>::keys());" % f.ty for f in flats)))
    o.append("    fn gen_value(k: &str, r: &mut Rng, d: u32) -> Tree { match k { %s _ => { %s unreachable!() } } }" % (
        "".join("%s => <%s as Model>::gen(r, d), " % (q(n), f.ty) for n, f in names.items()),
        " ".join("if <%s as Strukt>::known(k) { return <%s as Strukt>::gen_value(k, r, d); }" % (f.ty, f.ty) for f in flats)))
    o.append("    fn build(e: &[(String, Tree)]) -> Result<Self, Miss> {")
    o.append("        let mut m = Miss::default();")
    for i, f in enumerate(fields):
        if f.flatten:
            o.append("        let mut v%d: Vec<(String, Tree)> = vec![];" % i)
        else:
            o.append("        let mut v%d: Option<%s> = None;" % (i, f.ty))
    o.append("        for (k, v) in e {")
    o.append("            match k.as_str() {")
    for i, f in enumerate(fields):
        if not f.flatten:
            o.append("                %s => match <%s as Model>::model(v) { Ok(x) => v%d = Some(x), Err(_) => m.bad = true }," % (" | ".join(q(n) for n in [f.name] + f.aliases), f.ty, i))
    for i, f in enumerate(fields):
        if f.flatten:
            o.append("                x if <%s as Strukt>::known(x) => v%d.push((k.clone(), v.clone()))," % (f.ty, i))
    o.append("                _ => {}")
    o.append("            }")
    o.append("        }")
    for i, f in enumerate(fields):
        if f.flatten:
            o.append("        let v%d = m.sub(<%s as Strukt>::build(&v%d));" % (i, f.ty, i))
        elif f.default == "implicit":
            o.append("        let v%d = Some(v%d.unwrap_or_default());" % (i, i))
        elif f.default == "path":
            o.append("        let v%d = Some(v%d.unwrap_or_else(|| %s));" % (i, i, lit(f.ty, 0)))
        elif f.ty.startswith("Option<"):
            o.append("        let v%d = Some(v%d.unwrap_or(None));" % (i, i))
        elif default:
            o.append("        let v%d = Some(v%d.unwrap_or_else(|| %s));" % (i, i, lit(f.ty)))
        else:
            o.append("        if v%d.is_none() && !m.bad { m.names.push(%s); }" % (i, q(f.name)))
    o.append("        if m.bad || !m.names.is_empty() { return Err(m); }")
    o.append("        Ok(%s { %s })" % (name, ", ".join("%s: v%d.unwrap()" % (f.ident, i) for i, f in enumerate(fields))))
    o.append("    }")
    o.append("}")
    o.append("strukt_model!(%s);" % name)
    # what serialization must do
    o.append("impl ToTree for %s {" % name)
    o.append("    fn tree(&self) -> Tree {")
    o.append("        #[allow(unused_mut)] let mut o: Vec<(String, Tree)> = vec![];")
    for f in fields:
        c = []
        if f.skip_if:
            c.append("!crate::derive::skip_hash(&self.%s)" % f.ident)
        if skip_opt and not f.flatten:
            c.append("!self.%s.absent()" % f.ident)
        act = ("crate::derive::splice(&mut o, self.%s.tree());" % f.ident) if f.flatten else "o.push((%s.to_string(), self.%s.tree()));" % (q(f.name), f.ident)
        o.append("        %s{ %s }" % ("if %s " % " && ".join(c) if c else "", act))
    o.append("        Tree::Struct(o)")
    o.append("    }")
    o.append("}")
    STRUCTS[name] = dict(fields=fields, skip_opt=skip_opt, default=default, depth=1 + max([0] + [STRUCTS[f.ty]["depth"] for f in fields if f.ty in STRUCTS]),
                         opt=any(f.ty.startswith("Option<") or f.ty == "()" or (f.flatten and STRUCTS.get(NEW.get(f.ty, f.ty), {"opt": True})["opt"]) for f in fields))
    out.extend(o)


def enum(name, variants, rule=None):
    """variants: [(ident, rename|None, [aliases])]"""
    o = ["#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy)]"]
    if rule:
        o.append('#[deser(rename_all = "%s")]' % rule)
    o.append("pub enum %s {" % name)
    rows = []
    for ident, ren, al in variants:
        a = (["rename = %s" % q(ren)] if ren is not None else []) + ["alias = %s" % q(x) for x in al]
        if a:
            o.append("    #[deser(%s)]" % ", ".join(a))
        o.append("    %s," % ident)
        rows.append((ident, ren if ren is not None else variant_name(ident, rule), al))
    o.append("}")
    o.append("impl Names for %s {" % name)
    o.append("    fn rows() -> Vec<(%s, &'static str, Vec<&'static str>)> { vec![%s] }" % (
        name, ", ".join("(%s::%s, %s, vec![%s])" % (name, i, q(n), ", ".join(map(q, al))) for i, n, al in rows)))
    o.append("}")
    o.append("enum_model!(%s);" % name)
    ENUMS[name] = [v[0] for v in variants]
    out.extend(o)


def newtype(name, ty):
    out.append("#[derive(Serialize, Deserialize, Debug, PartialEq)]\npub struct %s(pub %s);" % (name, ty))
    out.append("newtype_model!(%s, %s);" % (name, ty))
    if ty in STRUCTS:
        out.append("newtype_strukt!(%s, %s);" % (name, ty))
    NEW[name] = ty


F = Field
struct("Plain", [F("a", "u8"), F("b", "Option<String>"), F("c", "Vec<u16>")])
struct("Flat", [F("x", "bool"), F("p", "Plain", flatten=True), F("y", "Option<u8>")])
enum("Color", [("Red", None, []), ("Green", None, ["verde"]), ("DarkBlue", None, []), ("Odd", "an odd \"name\"", [])], "kebab-case")
newtype("Wrap", "u8")
newtype("WrapBytes", "Vec<u8>")
newtype("WrapPlain", "Plain")
newtype("WrapOpt", "Option<u16>")
newtype("WrapMap", "BTreeMap<String, u8>")
newtype("WrapSeq", "Vec<u16>")
newtype("WrapWrap", "Wrap")
newtype("WrapFlat", "Flat")
newtype("WrapColor", "Color")
newtype("WrapArr", "[u8; 2]")
newtype("WrapTuple", "(u8, bool)")
newtype("WrapUnit", "()")

# --- names ------------------------------------------------------------------
FIELDS = ["a", "ab", "foo", "foo_bar", "a_b_c", "x1", "foo2_bar3", "a1_2b", "long_field_name_here", "foo__bar", "trailing_", "v_1", "r#type", "r#match", "is_ok", "z_z"]
VARIANTS = ["A", "Ab", "Foo", "FooBar", "XRay", "Foo1", "Foo1Bar2", "ABC", "HttpServer", "LongVariantNameHere", "Z", "B9", "IsOk", "FooB"]
for k, rule in enumerate([None] + RULES):
    fs, seen = [], set()
    for n in FIELDS:
        x = field_name(n, rule)
        if x not in seen:
            seen.add(x)
            fs.append(F(n, "u8"))
    # an explicit rename wins over the rule
    fs += [F("renamed_one", "u8", rename="kept_As-Is"), F("renamed_two", "u8", rename="ünï cödé\n\"q\""), F("renamed_three", "u8", rename=""), F("aliased_one", "u8", aliases=["Some_alias", "another alias"])]
    R.shuffle(fs)
    struct("Names%d" % k, fs, rule)
    vs, seen = [], set()
    for n in VARIANTS:
        x = variant_name(n, rule)
        if x not in seen:
            seen.add(x)
            vs.append((n, None, []))
    vs += [("RenamedOne", "kept_As-Is", []), ("RenamedTwo", "ünï cödé\n\"q\"", []), ("RenamedThree", "", []), ("AliasedOne", None, ["Some_alias", "another alias"])]
    R.shuffle(vs)
    enum("VNames%d" % k, vs, rule)

# --- random structs and enums -------------------------------------------------
POOL = ["a", "b", "c", "foo", "foo_bar", "bar", "x1", "y_2", "key", "slot", "index", "data", "value", "name", "long_name_here", "r#type", "sink", "state", "f0"]
for k in range(8):
    vs = [(v, None if R.random() < .7 else "r%d %s" % (k, v), ["al%d_%s" % (i, v) for i in range(R.choice([0, 0, 0, 1, 2]))]) for v in R.sample(["A", "B", "Two", "ThreeWords", "Nr4", "Five5Five", "None", "Some", "Ok"], R.randint(1, 7))]
    enum("E%d" % k, vs, R.choice([None] + RULES))


def rand_ty():
    x = R.random()
    if x < .68:
        return R.choice(list(BASE))
    ks = [s for s in STRUCTS if STRUCTS[s]["depth"] < 3 and not s.startswith("Names")] + list(ENUMS)[:1] + ["E%d" % R.randint(0, 7), "Wrap", "WrapPlain", "WrapBytes"]
    s = R.choice(ks)
    return R.choice(["%s", "%s", "Option<%s>", "Box<%s>", "Vec<%s>"]) % s


for k in range(60):
    n = R.choice([0, 1, 1, 2, 3, 4, 5, 6, 8]) if k else 0
    rule = R.choice([None, None] + RULES)
    skip_opt = R.random() < .3
    default = R.choice([None, None, None, "trait", "path"])
    used = set()
    fs = []
    for ident in R.sample(POOL, n):
        ty = rand_ty()
        f = F(ident, ty)
        if R.random() < .15:
            f.rename = R.choice(["renamed", "Ren-amed", "with space", "1", "type", "a.b", "ä"]) + str(k)
        nm = f.rename if f.rename is not None else field_name(ident, rule)
        if nm in used:
            continue
        used.add(nm)
        for _ in range(R.choice([0, 0, 0, 1, 2])):
            al = R.choice(["alias", "ALIAS", "a", "b", "foo", "fooBar", "other-key", "type"]) + R.choice(["", "", str(k)])
            if al not in used:
                used.add(al)
                f.aliases.append(al)
        x = R.random()
        if x < .15 and (ty in BASE and ty not in NODEFAULT):
            f.default = "implicit"
        elif x < .3 and ty not in NODEFAULT:
            f.default = "path"
        if R.random() < .25:
            f.skip_if = True
        if default and f.default is None and (ty.startswith("Option<")):
            # an optional field next to a container default is not specified
            f.default = "path"
        fs.append(f)
    # flattened fields
    if k > 8 and R.random() < .55:
        for _ in range(R.choice([1, 1, 2])):
            cand = [s for s in STRUCTS if s[0] == "S" and STRUCTS[s]["depth"] < 3] + ["Plain", "Flat", "WrapPlain", "WrapFlat"]
            if skip_opt:
                cand = [s for s in cand if NEW.get(s, s) in STRUCTS and not STRUCTS[NEW.get(s, s)]["opt"]]
            if default:
                cand = []
            ident = [p for p in ["flat_a", "flat_b"] if p not in [f.ident for f in fs]]
            if cand and ident:
                fs.insert(R.randint(0, len(fs)), F(ident[0], R.choice(cand), flatten=True, skip_if=R.random() < .2))
    struct("S%d" % k, fs, rule, default, skip_opt, rename=("Renamed%d" % k if R.random() < .2 else None))

# --- more fields and variants than fit into a byte -----------------------------
struct("Many", [F("m%d" % k, "u8", default="implicit" if k % 2 else None, skip_if=k % 3 == 1) for k in range(270)])
enum("VMany", [("V%d" % k, None, []) for k in range(270)])

names = [s for s in STRUCTS]
out.append("macro_rules! all_structs { ($m:ident) => { $m! { %s } } }" % " ".join(s for s in names if not s.startswith("Names")))
out.append("macro_rules! all_name_structs { ($m:ident) => { $m! { %s } } }" % " ".join(s for s in names if s.startswith("Names")))
out.append("macro_rules! all_enums { ($m:ident) => { $m! { %s } } }" % " ".join(e for e in ENUMS if not e.startswith("VNames")))
out.append("macro_rules! all_name_enums { ($m:ident) => { $m! { %s } } }" % " ".join(e for e in ENUMS if e.startswith("VNames")))
out.append("macro_rules! all_newtypes { ($m:ident) => { $m! { %s } } }" % " ".join(NEW))
for m in ("all_structs", "all_name_structs", "all_enums", "all_name_enums", "all_newtypes"):
    out.append("pub(crate) use %s;" % m)
head = """// Written by tools/gen_harness.py; do not edit.
#![allow(non_snake_case, dead_code, clippy::all)]
use crate::ctx::Rng;
use crate::de::{Bad, Model, R};
use crate::derive::*;
use crate::model::*;
use crate::ser::ToTree;
use deser::{Deserialize, Serialize};
use std::collections::BTreeMap;
"""
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness/src/gen.rs")
open(p, "w").write(head + "\n".join(out) + "\n")
