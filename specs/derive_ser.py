"""Contracts of the code that #[derive(Serialize)] generates for the types of
specs/progs.py, taken from rustc's expansion of that crate; the traits it
implements come from the expansion of deser."""
from vlib.weave import *
from vlib.expand import *
from specs.core import types, spec
from specs import progs, ser_impls
from specs.progs import q
from specs.derive_de import HEAD, GLOBAL, generated, type_decl

SRC = "deser-derive/src/ser.rs (through the code it generates for the types of specs/progs.py); deser: ser::{Serialize, StructEmitter, Chunk}"
UNCONTRACTED = []
THEOREMS = {"C25": ["lemma_emits", "lemma_struct"]}
FNS = {}
READY, FIELDS, TEXT, SAYS, ENDS, OPTIONAL = {}, {}, [], {}, {}, {}
RES = "Result<Option<(Cow<'_, str>, SerializeHandle<'_>)>, Error>"


def traits():
    for k in ("serialize", "finish", "is_optional"):
        FNS["Serialize::" + k] = copy.copy(ser_impls.FNS["Serialize::" + k])
        FNS["Serialize::" + k].props, FNS["Serialize::" + k].also = [], ["C25", "C26"]
    FNS["StructEmitter::next"] = C(req=["old(self).ready()"], ens=["final(self).ready()"])


def struct(s):
    S = s.name + "__StructEmitter"
    sargs = "<'_%s>" % ("".join(", " + p.split(":")[0] for p in s.params))
    skey = strip_lt(S + s.args.replace(", ", ","))
    gp = "<%s>" % ", ".join((p + " + Serialize") if ":" in p else p + ": Serialize" for p in s.params) if s.params else ""
    flat = any(f.flatten for f in s.fields)
    o, ks = [], []
    for f in s.fields:
        v = "data.%s" % f.ident
        skip = ["skips(%s)" % v] if f.skip else []
        if s.skip_optionals and not f.flatten:
            skip.append("%s.optional()" % v)
        sk = " || ".join(skip) or "false"
        ks.append("Kind::Flat { skip: %s, val: ser_of(%s) }" % (sk, v) if f.flatten else "Kind::Plain { skip: %s, name: %s@, val: ser_of(%s) }" % (sk, q(f.name), v))
    o.append("/// The fields of %s.\npub open spec fn %s_fields%s(data: %s) -> Seq<Kind> { seq![%s] }" % (s.name, s.name, gp, s.ty, ", ".join(ks)))
    if flat:
        o.append("pub open spec fn %s_st%s(e: %s%s) -> St<'_> { St { index: e.index as int, nested: e.nested_emitter, closed: e.nested_emitter_exhausted } }" % (s.name, gp, S, sargs))
    else:
        o.append("pub open spec fn %s_st%s(e: %s%s) -> St<'_> { St { index: e.index as int, nested: None, closed: true } }" % (s.name, gp, S, sargs))
    READY[skey] = "open spec fn ready(&self) -> bool { %s }" % ("!self.nested_emitter_exhausted ==> self.nested_emitter is Some" if flat else "true")
    ty = s.ty.replace(", ", ",")
    SAYS[ty] = "exists|e: %s%s| #[trigger] struct_said(r, e) && *e.data == *self && %s_st(e) == (St { index: 0, nested: None, closed: true })" % (S, sargs, s.name)
    FNS["<%s as Serialize>::serialize" % ty] = C(props=["C25"])
    FNS["<%s as Serialize>::finish" % ty] = C(props=["C25"])
    FNS["<%s as Serialize>::is_optional" % ty] = C(props=["C25"])
    ksx, opt = "%s_fields(*old(self).data)" % s.name, "true" if s.skip_optionals else "false"
    st = lambda x: "%s_st(%s)" % (s.name, x)
    n = len(s.fields)
    FNS["<%s as StructEmitter>::next" % skey] = C(
        props=["C25"], entry_raw="broadcast use derive_std; let ghost mut vf_tr: Seq<St<'_>> = Seq::empty();",
        ens=["call(%s, %s, %s, r, %s)" % (ksx, opt, st("*old(self)"), st("*final(self)")), "final(self).data == old(self).data"],
        attrs="#[verifier::exec_allows_no_decreases_clause] " if flat else "",
        loops=[L(["self.data == old(self).data", "self.ready()", "runs(%s, %s, vf_tr)" % (ksx, opt),
                  "vf_tr.len() > 0 ==> vf_tr[0] == %s && step(%s, %s, vf_tr.last(), %s)" % (st("*old(self)"), ksx, opt, st("*self")),
                  "vf_tr.len() == 0 ==> *self == *old(self)"],
                 dec=None if flat else "(if self.index < %d { %d - self.index } else { 0int })" % (n, n),
                 start="lemma_push(%s, %s, vf_tr, %s); vf_tr = vf_tr.push(%s);" % (ksx, opt, st("*self"), st("*self")))])
    return "\n".join(o)


def enum(e):
    arms = ", ".join("%s::%s => atom_said(r, Ev::Str(%s@))" % (e.name, v[0], q(v[1])) for v in e.variants)
    SAYS[e.name] = "match *self { %s }" % arms
    for m in ("serialize", "finish", "is_optional"):
        FNS["<%s as Serialize>::%s" % (e.name, m)] = C(props=["C26"])


def newtype(n):
    ty = n.ty.replace(", ", ",")
    SAYS[ty], ENDS[ty], OPTIONAL[ty] = "self.0.says(r)", "self.0.ends(r)", "self.0.optional()"
    for m in ("serialize", "finish", "is_optional"):
        FNS["<%s as Serialize>::%s" % (ty, m)] = C(props=["C26"])


traits()
for x in progs.STRUCTS:
    TEXT.append(struct(x))
for x in progs.ENUMS:
    enum(x)
for x in progs.NEWTYPES:
    newtype(x)


def impl_source(ty):
    g = "<T: Serialize>" if "<T>" in ty else ""
    return ("impl%s Serialize for %s {\n #[verifier::prophetic] open spec fn says(&self, r: Result<Chunk<'_>, Error>) -> bool { prim_says(*self, r) }\n open spec fn ends(&self, r: Result<(), Error>) -> bool { prim_ends(*self, r) }\n open spec fn optional(&self) -> bool { prim_optional(*self) }\n open spec fn byte_form(v: Seq<Self>) -> Option<Seq<u8>> { prim_bytes(v) }\n"
            " #[verifier::external_body] fn serialize(&self, state: &SerializerState) -> (r: Result<Chunk<'_>, Error>) { unimplemented!() }\n"
            " #[verifier::external_body] fn finish(&self, state: &SerializerState) -> (r: Result<(), Error>) { unimplemented!() }\n"
            " #[verifier::external_body] fn is_optional(&self) -> (r: bool) { unimplemented!() }\n"
            " #[verifier::external_body] fn __private_slice_as_bytes(val: &[Self]) -> (r: Option<Cow<'_, [u8]>>) { unimplemented!() }\n"
            " #[verifier::external_body] fn descriptor(&self) -> &dyn Descriptor { unimplemented!() } }\n") % (g, ty)


def ghosts(src, report):
    for f in src.fns:
        p = f["span"][0]
        if f["in_trait"] == "Serialize" and f["name"] == "serialize":
            src.edit(p, p, ser_impls.SER_DECL, -30)
        if f["in_trait"] == "StructEmitter" and f["name"] == "next":
            src.edit(p, p, "spec fn ready(&self) -> bool;\n", -30)
        if f["trait"] == "Serialize" and f["name"] == "serialize":
            ty = strip_lt(f["self_ty"])
            src.edit(p, p, "#[verifier::prophetic] open spec fn says(&self, r: Result<Chunk<'_>, Error>) -> bool { %s }\nopen spec fn ends(&self, r: Result<(), Error>) -> bool { %s }\nopen spec fn optional(&self) -> bool { %s }\nopen spec fn byte_form(v: Seq<Self>) -> Option<Seq<u8>> { None }\n"
                     % (SAYS[ty], ENDS.get(ty, "r is Ok"), OPTIONAL.get(ty, "false")), -30)
        if f["trait"] == "StructEmitter" and f["name"] == "next":
            src.edit(p, p, READY[strip_lt(f["self_ty"])] + "\n", -30)


def build(report):
    t = expanded("deser")
    ser = module(t, ["ser"])
    top = parse_text(without_modules(ser), "deser::ser")
    parts = [top.text(i["span"]) for i in top.items if i["kind"] == "trait" and i["name"] in ("Serialize", "StructEmitter")]
    if len(parts) != 2:
        raise Drift("traits of deser::ser not found")
    chunk = parse_text(module(ser, ["chunk"]), "deser::ser::chunk")
    ck = [i for i in chunk.items if i["kind"] == "enum" and i["name"] == "Chunk"]
    if len(ck) != 1:
        raise Drift("Chunk not found")
    body = "\n".join(parts)
    for x in progs.STRUCTS + progs.ENUMS + progs.NEWTYPES:
        body += "\n" + generated("SERIALIZE", report, x)
    report["programs"] = [x.name for x in progs.STRUCTS + progs.ENUMS + progs.NEWTYPES]
    report["rewrites"].append("R-hoist generated items leave their const block, prefixed with the type's name; ::deser paths are dropped")
    body = macros(body, report, "deser")
    body = re.sub(r"(?m)^\s*use [^;]*;", "", body)
    body = body.replace("crate::ser::", "").replace("std::borrow::Cow", "Cow")
    body = re.sub(r"\bCow\s*,", "Cow<'_, str>,", body)
    body = re.sub(r"Box<dyn\s+StructEmitter\s*\+\s*'__a>", "StructEm<'__a>", body)
    body, n = re.subn(r"unsafe\s*\{\s*::std::mem::transmute::<_, _>\((\(__key, __handle\))\)\s*\}", r"\1", body)
    report["rewrites"].append("R-transmute x%d: transmute::<_, _>((__key, __handle)), which only shortens no and lengthens a lifetime, is the identity" % n)
    body = ser_impls.copy_defaults(body, report)
    body = opaque(body, ("descriptor",), report, "derive")
    body, ck = ser_impls.dyn(body, report), ser_impls.dyn(chunk.text(ck[0]["span"]), report)
    src = parse_text(body, "derive")
    fns = dict(FNS)
    ghosts(src, report)
    for i in src.items:
        if i["kind"] == "struct":
            ps = [x.split(":")[0].strip() for x in i["generics"].strip("<>").split(",")]
            ps = [x for x in ps if x and not x.startswith("'") and not x.startswith("const")]
            src.edit(i["span"][0], i["span"][0], "".join("#[verifier::reject_recursive_types(%s)] " % x for x in ps), -6)
    rule_vis(src, report)
    weave_all(src, fns, report, [], [f["key"] for f in src.fns if f["name"] in ("descriptor", "__private_slice_as_bytes")])
    out = src.render(0, len(src.data))
    decl = "".join(type_decl(x) for x in progs.STRUCTS + progs.ENUMS + progs.NEWTYPES)
    decl += "".join(impl_source(t) for t in ("u32", "u64", "u8", "bool", "String", "Vec<T>", "Option<T>"))
    return (HEAD + "verus! {\n" + GLOBAL + types(report) + ck + spec("ser_types.rs") + spec("derive_ser.rs") + spec("derive_ser_lemmas.rs") + decl + "\n".join(TEXT)
            + "\n// ==== extracted ====\n" + out + "\n} // verus!\nfn main() {}\n")


if __name__ == "__main__":
    rep = new_report()
    open("/tmp/w/derive_ser.rs", "w").write(build(rep))
    print(json.dumps({k: rep[k] for k in ("uncontracted", "missing", "drift", "undecided")}, indent=1)[:3000])
