"""Contracts of the Serialize implementations (deser/src/ser/impls.rs and the
defaults of the trait in deser/src/ser/mod.rs)."""
from vlib.weave import *
from vlib.expand import *
from specs.core import types, spec
from specs.driver_de import HEAD, GLOBAL

SRC = "deser (macro expanded): ser::impls, ser (trait Serialize)"
UNCONTRACTED = []
THEOREMS = {"C16": ["lemma_seq_run", "lemma_map_run"]}
FNS = {}
P15, P16, P19 = dict(props=["C15"]), dict(props=["C16"]), dict(props=["C16", "C19"])

# type -> (says, optional, ends, property)
SAYS = {}
N = lambda e: "atom_said(r, %s)" % e
for ty in ("u16", "u32", "u64", "u8"):
    SAYS[ty] = N("Ev::U64(*self as u64)")
SAYS["usize"] = N("Ev::U64(*self as u64)")
for ty in ("i8", "i16", "i32", "i64", "isize"):
    SAYS[ty] = N("Ev::I64(*self as i64)")
SAYS["bool"] = N("Ev::Bool(*self)")
SAYS["()"] = N("Ev::Null")
SAYS["char"] = N("Ev::Char(*self)")
SAYS["f32"] = N("Ev::F64(f64_of_f32(*self))")
SAYS["f64"] = N("Ev::F64(*self)")
SAYS["String"] = N("Ev::Str(self@)")
SAYS["&str"] = N("Ev::Str(self@)")
SAYS["Cow<str>"] = N("Ev::Str(cow_str(*self))")
for ty in ("Vec<T>", "&[T]", "[T;N]"):
    SAYS[ty] = "slice_said(r, self@)"
SAYS["BTreeMap<K,V>"] = "vstd::std_specs::btree::key_obeys_cmp_spec::<K>() ==> map_said(r, self@)"
SAYS["HashMap<K,V,H>"] = "vstd::std_specs::hash::obeys_key_model::<K>() && vstd::std_specs::hash::builds_valid_hashers::<H>() ==> map_said(r, self@)"
SAYS["BTreeSet<T>"] = "vstd::std_specs::btree::key_obeys_cmp_spec::<T>() ==> set_said(r, self@)"
SAYS["HashSet<T>"] = "vstd::std_specs::hash::obeys_key_model::<T>() ==> set_said(r, self@)"
SAYS["Option<T>"] = "match self { Some(v) => v.says(r), None => atom_said(r, Ev::Null) }"
for ty in ("&T", "&mut T", "Box<T>"):
    SAYS[ty] = "(**self).says(r)"
ENDS = {"Option<T>": "match self { Some(v) => v.ends(r), None => r is Ok }"}
OPTIONAL = {"Option<T>": "self is None", "()": "true"}
for ty in ("&T", "&mut T", "Box<T>"):
    ENDS[ty] = "(**self).ends(r)"
    OPTIONAL[ty] = "(**self).optional()"
BYTES = {"u8": "Some(v)"}

IS_SEQ = "seq_left(em) == self.left() && forall|i: int, h: SerializeHandle<'_>| #[trigger] seq_item(em, i, h) == self.item(i, h)"
IS_MAP = "map_left(em) == self.left(), forall|i: int, h: SerializeHandle<'_>| #[trigger] map_key(em, i, h) == self.key(i, h), forall|i: int, h: SerializeHandle<'_>| #[trigger] map_value(em, i, h) == self.value(i, h)"
SEQ_DECL = """/// What follows for the boxed emitter, in terms of the emitter's contents.
#[verifier::prophetic] spec fn tells(&self, em: SeqEm<'_>) -> bool;
proof fn tells_ok(&self, em: SeqEm<'_>) requires """ + IS_SEQ + """ ensures self.tells(em);
#[verifier::prophetic] spec fn more(&self) -> bool;
#[verifier::prophetic] spec fn left(&self) -> nat;
#[verifier::prophetic] spec fn item(&self, i: int, h: SerializeHandle<'_>) -> bool;
"""
MAP_DECL = """#[verifier::prophetic] spec fn tells(&self, em: MapEm<'_>) -> bool;
proof fn tells_ok(&self, em: MapEm<'_>) requires """ + IS_MAP + """ ensures self.tells(em);
#[verifier::prophetic] spec fn more(&self) -> bool;
#[verifier::prophetic] spec fn left(&self) -> nat;
#[verifier::prophetic] spec fn key(&self, i: int, h: SerializeHandle<'_>) -> bool;
#[verifier::prophetic] spec fn value(&self, i: int, h: SerializeHandle<'_>) -> bool;
/// The value whose turn it is, between a key and the next.
spec fn has_value(&self) -> bool;
spec fn now(&self, h: SerializeHandle<'_>) -> bool;
"""
SHIFT = "forall|i: int, h: SerializeHandle<'_>| 0 <= i < final(self).left() ==> #[trigger] final(self).{0}(i, h) == old(self).{0}(i + 1, h)"
FNS["SeqEmitter::next"] = C(req=["old(self).more()"], ens=[
    "r is Ok", "old(self).left() == 0 ==> r->Ok_0 is None",
    "old(self).left() > 0 ==> r->Ok_0 is Some && old(self).item(0, r->Ok_0->Some_0) && final(self).more() && final(self).left() == old(self).left() - 1",
    "old(self).left() > 0 ==> " + SHIFT.format("item")])
FNS["MapEmitter::next_key"] = C(req=["old(self).more()"], ens=[
    "r is Ok", "old(self).left() == 0 ==> r->Ok_0 is None",
    "old(self).left() > 0 ==> r->Ok_0 is Some && old(self).key(0, r->Ok_0->Some_0) && final(self).more() && final(self).left() == old(self).left() - 1",
    "old(self).left() > 0 ==> final(self).has_value() && forall|h: SerializeHandle<'_>| #[trigger] final(self).now(h) ==> old(self).value(0, h)",
    "old(self).left() > 0 ==> " + SHIFT.format("key"), "old(self).left() > 0 ==> " + SHIFT.format("value")])
FNS["MapEmitter::next_value"] = C(req=["old(self).more()", "old(self).has_value()"], ens=[
    "r is Ok && old(self).now(r->Ok_0)", "final(self).more() && final(self).left() == old(self).left()",
    "forall|i: int, h: SerializeHandle<'_>| #[trigger] final(self).key(i, h) == old(self).key(i, h)",
    "forall|i: int, h: SerializeHandle<'_>| #[trigger] final(self).value(i, h) == old(self).value(i, h)"])
SER_DECL = """#[verifier::prophetic] spec fn says(&self, r: Result<Chunk<'_>, Error>) -> bool;
spec fn ends(&self, r: Result<(), Error>) -> bool;
spec fn optional(&self) -> bool;
spec fn byte_form(v: Seq<Self>) -> Option<Seq<u8>> where Self: Sized;
"""
FNS["Serialize::serialize"] = C(ens=["self.says(r)"])
FNS["Serialize::finish"] = C(ens=["self.ends(r)"])
FNS["Serialize::is_optional"] = C(ens=["r == self.optional()"])
FNS["Serialize::__private_slice_as_bytes"] = C(ens=["match r { Some(b) => Self::byte_form(%s@) == Some(cow_bytes(b)), None => Self::byte_form(%s@) is None }"])
DEFAULTS = ("finish", "is_optional", "__private_slice_as_bytes")


def head_key(ty):
    return strip_lt(ty)


def copy_defaults(body, report):
    """R-default: the default methods of Serialize are copied into every impl
    that does not override them (what the compiler does); the trait keeps the
    signatures."""
    s = parse_text(body, "deser")
    e = []
    for name in DEFAULTS:
        f = s.fn("Serialize::" + name)
        text = s.text(f["span"])
        e.append((f["span"][0], f["span"][1], s.text(f["sig"]) + ";"))
        have = set(strip_lt(x["self_ty"]) for x in s.fns if x["trait"] == "Serialize" and x["name"] == name)
        for x in s.fns:
            if x["trait"] == "Serialize" and x["name"] == "serialize" and strip_lt(x["self_ty"]) not in have:
                e.append((x["span"][0], x["span"][0], re.sub(r"#\[doc\(hidden\)\]", "", text) + "\n"))
    d = s.data
    for a, b, t in sorted(e, reverse=True):
        d = d[:a] + t.encode() + d[b:]
    report["rewrites"].append("R-default Serialize::{%s}" % ", ".join(DEFAULTS))
    return d.decode()


def opt_map(body, report):
    """R-optmap: `O.map(f)` and `O.map(|p| E)` on an Option are
    `match O { Some(p) => Some(E), None => None }`."""
    while True:
        m = re.search(r"\bself(\s*\.\w+(\(\))?)*\s*\.next\(\)\s*\.map\(", body)
        if not m:
            return body
        i = m.end() - 1
        e = balanced(body, i, "(", ")")
        arg = body[i + 1:e - 1].strip()
        o = body[m.start():body.rindex(".map(", m.start(), m.end())].strip()
        c = re.match(r"(?:move )?\|([^|]*)\|(.*)$", arg, re.S)
        if c:
            r = "match %s { Some(%s) => Some(%s), None => None }" % (o, c.group(1), c.group(2))
        elif re.match(r"^[\w:]+$", arg):
            r = "match %s { Some(vf_x) => Some(%s(vf_x)), None => None }" % (o, arg)
        else:
            raise Drift("R-optmap: argument of map not understood: " + arg[:60])
        body = body[:m.start()] + r + body[e:]
        report["rewrites"].append("R-optmap " + " ".join(m.group(0).split()) + arg[:30])


def dyn(x, report):
    for k, v in (("Seq", "SeqEm"), ("Map", "MapEm"), ("Struct", "StructEm")):
        x = re.sub(r"Box<dyn %sEmitter \+ 'a>" % k, v + "<'a>", x)
        while True:
            m = re.search(r"Chunk::%s\(Box::new\(" % k, x)
            if not m:
                break
            x = x[:m.start()] + "Chunk::%s(%s::vf_new(" % (k, v) + x[m.end():]
    report["rewrites"].append("R-dyn Box<dyn Emitter> is an opaque type, Box::new(emitter) as one is vf_new(emitter)")
    return x


def ghosts(src, report):
    """Ghost functions of the traits and their impls, and their contracts' names."""
    for f in src.fns:
        p = f["span"][0]
        if f["in_trait"] == "Serialize" and f["name"] == "serialize":
            src.edit(p, p, SER_DECL, -30)
        if f["in_trait"] == "SeqEmitter" and f["name"] == "next":
            src.edit(p, p, SEQ_DECL, -30)
        if f["in_trait"] == "MapEmitter" and f["name"] == "next_key":
            src.edit(p, p, MAP_DECL, -30)
        if f["trait"] == "Serialize" and f["name"] == "serialize":
            ty = strip_lt(f["self_ty"])
            says = SAYS.get(ty)
            if says is None and ty.startswith("("):
                ns = [x for x in ty.strip("()").split(",") if x]
                says = "r is Ok && r->Ok_0 is Seq && seq_left(r->Ok_0->Seq_0) == %d" % len(ns) + "".join(
                    " && (forall|h: SerializeHandle<'_>| #[trigger] seq_item(r->Ok_0->Seq_0, %d, h) ==> refers(h, self.%d))" % (i, i) for i in range(len(ns)))
            if says is None:
                raise Drift("no specification of the source type %s" % ty)
            src.edit(p, p, "#[verifier::prophetic] open spec fn says(&self, r: Result<Chunk<'_>, Error>) -> bool { %s }\nopen spec fn ends(&self, r: Result<(), Error>) -> bool { %s }\nopen spec fn optional(&self) -> bool { %s }\nopen spec fn byte_form(v: Seq<Self>) -> Option<Seq<u8>> { %s }\n"
                     % (says, ENDS.get(ty, "r is Ok"), OPTIONAL.get(ty, "false"), BYTES.get(ty, "None")), -30)
        if f["trait"] == "SeqEmitter" and f["name"] == "next":
            ty = strip_lt(f["self_ty"])
            m = re.match(r"^Tuple\d+TupleSeqEmitter<(.*)>$", ty) or re.match(r"^TupleSeqEmitter<(.*)>$", ty)
            if m:
                n = len(m.group(1).split(","))
                src.edit(p, p, "#[verifier::prophetic] open spec fn more(&self) -> bool { self.index <= %d }\n#[verifier::prophetic] open spec fn left(&self) -> nat { (%d - self.index) as nat }\n#[verifier::prophetic] open spec fn item(&self, i: int, h: SerializeHandle<'_>) -> bool { %s }\n"
                         % (n, n, " ".join("if i + self.index == %d { refers(h, self.tuple.%d) } else" % (j, j) for j in range(n)) + " { false }"), -30)
                src.edit(p, p, "open spec fn tells(&self, em: SeqEm<'_>) -> bool { true }\nproof fn tells_ok(&self, em: SeqEm<'_>) { }\n", -30)
            else:
                src.edit(p, p, "#[verifier::prophetic] open spec fn more(&self) -> bool { self.0.obeys_prophetic_iter_laws() }\n#[verifier::prophetic] open spec fn left(&self) -> nat { self.0.remaining().len() }\n#[verifier::prophetic] open spec fn item(&self, i: int, h: SerializeHandle<'_>) -> bool { refers(h, *self.0.remaining()[i]) }\n#[verifier::prophetic] open spec fn tells(&self, em: SeqEm<'_>) -> bool { seq_of(em, self.0.remaining().unref()) }\nproof fn tells_ok(&self, em: SeqEm<'_>) { }\n", -30)
        if f["trait"] == "MapEmitter" and f["name"] == "next_key":
            src.edit(p, p, """#[verifier::prophetic] open spec fn more(&self) -> bool { self.0.obeys_prophetic_iter_laws() }
#[verifier::prophetic] open spec fn left(&self) -> nat { self.0.remaining().len() }
#[verifier::prophetic] open spec fn key(&self, i: int, h: SerializeHandle<'_>) -> bool { refers(h, *self.0.remaining()[i].0) }
#[verifier::prophetic] open spec fn value(&self, i: int, h: SerializeHandle<'_>) -> bool { refers(h, *self.0.remaining()[i].1) }
#[verifier::prophetic] open spec fn tells(&self, em: MapEm<'_>) -> bool { map_of(em, self.0.remaining().unref()) }
proof fn tells_ok(&self, em: MapEm<'_>) { }
open spec fn has_value(&self) -> bool { self.1 is Some }
open spec fn now(&self, h: SerializeHandle<'_>) -> bool { refers(h, *self.1->Some_0) }
""", -30)


def build(report):
    t = expanded("deser")
    ser = module(t, ["ser"])
    top = parse_text(without_modules(ser), "deser::ser")
    parts = [top.text(i["span"]) for i in top.items if i["kind"] == "trait" and i["name"] in ("Serialize", "SeqEmitter", "MapEmitter")]
    if len(parts) != 3:
        raise Drift("traits of deser::ser not found")
    chunk = parse_text(module(ser, ["chunk"]), "deser::ser::chunk")
    ck = [i for i in chunk.items if i["kind"] == "enum" and i["name"] == "Chunk"]
    if len(ck) != 1:
        raise Drift("Chunk not found")
    body = "\n".join(parts) + module(ser, ["impls"])
    body = macros(body, report, "deser::ser::impls")
    body = re.sub(r"(?m)^\s*use [^;]*;", "", body)
    while re.search(r"macro_rules! \w+ \{", body):
        i = re.search(r"macro_rules! \w+ \{", body).start()
        body = body[:i] + body[balanced(body, body.index("{", i)):]
    body = copy_defaults(body, report)
    body = hoist(body, report, "deser::ser")
    body = opaque(body, ("descriptor",), report, "deser::ser")
    body = opt_map(body, report)
    body, ck = dyn(body, report), dyn(chunk.text(ck[0]["span"]), report)
    src = parse_text(body, "deser::ser")
    fns = FNS
    f = src.fn("Serialize::__private_slice_as_bytes")
    m = re.search(r"\((\w+):", src.text(f["sig"]))
    if not m:
        raise Drift("Serialize::__private_slice_as_bytes: parameter not found")
    fns["Serialize::__private_slice_as_bytes"] = C(ens=[x.replace("%s", m.group(1)) for x in FNS["Serialize::__private_slice_as_bytes"].ens])
    for f in src.fns:
        if f["trait"] == "Serialize" and f["name"] in ("serialize",) + DEFAULTS:
            ty = strip_lt(f["self_ty"])
            coll = ty in ("Vec<T>", "&[T]", "[T;N]") or ty.startswith(("BTree", "Hash")) or (ty.startswith("(") and ty != "()")
            if f["name"] == "__private_slice_as_bytes":
                p = ["C19"]
            elif f["name"] == "serialize" and coll:
                p = ["C16", "C19"] if ty in ("Vec<T>", "&[T]", "[T;N]") else ["C16"]
            else:
                p = ["C15"]
            e = "assert(self@.subrange(0, self@.len() as int) =~= self@);" if ty == "Vec<T>" and f["name"] == "serialize" else ""
            raw = "broadcast use core_std;" if ty == "Cow<str>" and f["name"] == "serialize" else ""
            fns[f["key"]] = C(props=p, entry=e, entry_raw=raw)
        if f["trait"] in ("SeqEmitter", "MapEmitter"):
            fns[f["key"]] = C(props=["C16"])
    ghosts(src, report)
    for n in src.nodes if hasattr(src, "nodes") else []:
        pass
    rule_vis(src, report)
    weave_all(src, fns, report, [rule_widen], [f["key"] for f in src.fns if f["name"] == "descriptor"])
    return (HEAD + "use std::collections::*;\nuse std::hash::BuildHasher;\nuse vstd::std_specs::iter::IteratorSpec;\nverus! {\n" + GLOBAL + types(report) + ck + spec("ser_types.rs") + spec("ser_prelude.rs") + spec("ser_lemmas.rs")
            + "\n// ==== extracted ====\n" + src.render(0, len(src.data)) + "\n} // verus!\nfn main() {}\n")


def rule_widen(src, f, report):
    """R-float: `*self as _` of a float inside Atom::F64 is the wrapper of exactly that cast."""
    if f["trait"] == "Serialize" and strip_lt(f["self_ty"]) in ("f32", "f64"):
        for n in f["nodes"]:
            if n["kind"] == "cast":
                src.edit(n["span"][0], n["span"][1], "vf_f64_%s(%s)" % (strip_lt(f["self_ty"]), src.text(n["expr"])))
                report["rewrites"].append("R-float %s" % f["key"])


if __name__ == "__main__":
    rep = new_report()
    open("/tmp/w/ser_impls.rs", "w").write(build(rep))
    print(json.dumps({k: rep[k] for k in ("uncontracted", "missing", "drift", "undecided")}, indent=1))
