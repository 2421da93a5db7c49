"""Contracts of the conversions into events and chunks and of the static copies
(deser/src/event.rs, deser/src/ser/chunk.rs)."""
from vlib.weave import *
from vlib.expand import *
from specs.core import types, spec
from specs.driver_de import HEAD, GLOBAL

SRC = "deser (macro expanded): event, ser::chunk"
UNCONTRACTED = []
FNS = {}
# source type -> the event its value becomes; json_ext.rs is built from the same table
FROM = {"u64": "Ev::U64(x)", "i64": "Ev::I64(x)", "f64": "Ev::F64(x)", "usize": "Ev::U64(x as u64)", "isize": "Ev::I64(x as i64)",
        "bool": "Ev::Bool(x)", "char": "Ev::Char(x)", "()": "Ev::Null", "&str": "Ev::Str(x@)", "&[u8]": "Ev::Bytes(x@)",
        "String": "Ev::Str(x@)", "Cow<str>": "Ev::Str(cow_str(x))", "Atom": "atom_ev(x)"}


def assumed_from(tys):
    """The same contracts, for a unit that calls the conversions."""
    out = []
    for ty in tys:
        lt = "<'a>" if "&" in ty or "Cow" in ty else ""
        t = ty.replace("&", "&'a ").replace("Cow<", "Cow<'a, ")
        out.append("impl%s From<%s> for Event<%s> { #[verifier::external_body] fn from(x: %s) -> (r: Self) ensures ev(r) == %s { unimplemented!() } }" % (lt, t, "'a" if lt else "'_", t, FROM[ty]))
    return "\n".join(out) + "\n"


def rule_same(src, f, report):
    """R-cast: `x as _` where x already has the type of the Atom's field is x."""
    same = {"Atom::F64": "f64", "Atom::Bool": "bool", "Atom::Char": "char"}
    for n in f["nodes"]:
        if n["kind"] == "cast":
            x = src.text(n["expr"]).strip()
            before = src.data[:n["span"][0]].decode()
            m = re.search(r"(Atom::\w+)\($", before)
            p = re.search(r"\b%s: (\w+)" % re.escape(x), src.text(f["sig"]))
            if m and p and same.get(m.group(1)) == p.group(1):
                src.edit(n["span"][0], n["span"][1], x)
                report["rewrites"].append("R-cast %s" % f["key"])


def build(report):
    t = expanded("deser")
    ev = parse_text(module(t, ["event"]), "deser::event")
    ch = parse_text(module(t, ["ser", "chunk"]), "deser::ser::chunk")
    parts, keep = [], []
    for s in (ev, ch):
        for i in s.items:
            h = " ".join(s.text(i["span"])[:200].split())
            if i["kind"] == "impl" and i["in_fn"] < 0:
                if re.match(r"impl(<'a>)? From<", h):
                    parts.append(s.text(i["span"]))
                elif "::to_static" in str([f["key"] for f in s.fns if i["span"][0] <= f["span"][0] < i["span"][1]]):
                    parts.append(s.text(i["span"]))
    ck = [i for i in ch.items if i["kind"] == "enum" and i["name"] == "Chunk"]
    if len(ck) != 1:
        raise Drift("Chunk not found")
    ck = ch.text(ck[0]["span"])
    for k, v in (("Seq", "SeqEm"), ("Map", "MapEm"), ("Struct", "StructEm")):
        ck = re.sub(r"Box<dyn %sEmitter \+ 'a>" % k, v + "<'a>", ck)
    body = macros("\n".join(parts), report, "deser::event")
    body = opaque(body, ("name", "unexpected_error"), report, "deser::event")
    body = re.sub(r"\(_: ", "(_unused: ", body)
    report["rewrites"].append("R-ident the parameter pattern _ is a name")
    src = parse_text(body, "deser::event")
    found = set()
    for f in src.fns:
        if f["name"] == "from":
            m = re.match(r"^(\w+)\s*:\s*(.*)$", re.search(r"\((.*)\)\s*->", src.text(f["sig"]), re.S).group(1).strip().rstrip(","), re.S)
            ty = strip_lt(m.group(2)).replace("< ", "<") if m else None
            if ty not in FROM:
                raise Drift("no specification of the conversion from %s" % ty)
            e = re.sub(r"\bx\b", m.group(1), FROM[ty]) if m.group(1) != "_" else FROM[ty]
            chunk = strip_lt(f["self_ty"]).startswith("Chunk")
            FNS[f["key"]] = C(ens=["r matches Chunk::Atom(vf_a) && atom_ev(vf_a) == " + e] if chunk else ["ev(r) == " + e], props=["C27"])
            found.add((chunk, ty))
    if len(found) < 20:
        raise Drift("conversions not found")
    FNS["Atom::to_static"] = C(ens=["atom_ev(r) == atom_ev(*self)", "(r matches Atom::Str(s) ==> s is Owned) && (r matches Atom::Bytes(s) ==> s is Owned)"], props=["C27"], entry_raw="broadcast use core_std; broadcast use lemma_bytes;")
    FNS["Event::to_static"] = C(ens=["ev(r) == ev(*self)"], props=["C27"])
    for i in src.items:
        if i["kind"] == "impl":
            m = re.match(r"(impl(?:<'a>)?) From<(.*)> for ([\w<>' ]+?)\s*\{", src.text(i["span"]), re.S)
            if m:
                src.edit(i["span"][0], i["span"][0], "%s vstd::std_specs::convert::FromSpecImpl<%s> for %s { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: %s) -> Self { arbitrary() } }\n" % (m.group(1), m.group(2), m.group(3), m.group(2)), -20)
    rule_vis(src, report)
    weave_all(src, FNS, report, [rule_same], [f["key"] for f in src.fns if f["name"] in ("name", "unexpected_error")])
    em = "".join("#[verifier::external_body]\npub struct %s<'a> { _p: std::marker::PhantomData<&'a ()> }\n" % v for v in ("SeqEm", "MapEm", "StructEm"))
    return (HEAD + "use vstd::pervasive::cloned;\nverus! {\n" + GLOBAL + types(report) + em + ck + "\n" + spec("conv_ext.rs") + "\n// ==== extracted ====\n"
            + src.render(0, len(src.data)) + "\n} // verus!\nfn main() {}\n")


if __name__ == "__main__":
    rep = new_report()
    open("/tmp/w/conv.rs", "w").write(build(rep))
    print(json.dumps({k: rep[k] for k in ("uncontracted", "missing", "drift", "undecided")}, indent=1))
