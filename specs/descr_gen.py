"""Contracts of the descriptors of derived types: the code #[derive] generates for the table of specs/progs.py."""
from vlib.weave import *
from vlib.expand import *
from specs import descr, progs
from specs.core import spec
from specs.driver_de import HEAD, GLOBAL
from specs.derive_de import PATHS

UNCONTRACTED = []
THEOREMS = {}
FNS = {}


def block(which, x):
    t = progs.crate()
    m = re.search(r"const _DESER_%s_IMPL_FOR_%s: \(\) =\s*\{" % (which, x.name), t)
    if not m:
        raise Drift("no generated impl for " + x.name)
    return t[m.end():balanced(t, m.end() - 1) - 1]


def parts(which, x, report):
    """The descriptor functions of one generated block: of the type or its
    sink, and the Descriptor they refer to."""
    pre = x.name + which
    s = parse_text(re.sub(r"\b__Descriptor\b", pre + "__Descriptor", block(which, x)), pre)
    out = []
    for i in s.items:
        t = s.text(i["span"])
        if i["kind"] == "struct" and i["name"].endswith("__Descriptor"):
            out.append("pub " + re.sub(r"#\[[^\]]*\]", "", t).strip().replace("pub ", ""))
        if i["kind"] == "impl" and re.search(r"\bDescriptor\s+for\s+%s__Descriptor\b" % pre, t):
            p = parse_text(t, pre)
            have = {f["name"]: p.text(f["span"]) for f in p.fns}
            for n in descr.TRAIT:
                have.setdefault(n, report["default"][n])
            out.append("impl Descriptor for %s__Descriptor {\n/*dsc %s*/\n%s\n}" % (pre, x.name, "\n".join(have.values())))
            for n in have:
                NAMES["<%s__Descriptor as Descriptor>::%s" % (pre, n)] = x
    want = [f for f in s.fns if f["name"] == "descriptor" and (f["trait"] or "").split("::")[-1] in ("Serialize", "Sink") and f["parent_fn"] < 0]
    if len(want) > 1:
        raise Drift("several descriptors for " + pre)
    for f in want:
        k = "Vf%s" % pre
        out.append("pub struct %s(pub VfInner);\nimpl %s {\n%s\n}" % (k, k, s.text(f["span"]).replace("self.sink", "self.0")))
        ens = "r.dsc() == self.0.dsc()" if isinstance(x, progs.Newtype) else "r.dsc() == (Dsc { name: Some(%s@), ..nothing() })" % progs.q(getattr(x, "rename", None) or x.name)
        NAMES[k + "::descriptor"], ENS[k + "::descriptor"] = x, ens
    if not want and not isinstance(x, progs.Enum):
        raise Drift("no descriptor generated for " + pre)
    return out


NAMES, ENS = {}, {}


def build(report):
    base = descr.build(new_report())
    t = expanded("deser")
    d = parse_text(module(t, ["descriptors"]), "deser::descriptors")
    report["default"] = {f["name"]: d.text(f["span"]) for f in d.fns if f["in_trait"] == "Descriptor"}
    out = []
    for x in progs.STRUCTS + progs.ENUMS + progs.NEWTYPES:
        for w in ("SERIALIZE", "DESERIALIZE"):
            out += parts(w, x, report)
    del report["default"]
    report["programs"] = [x.name for x in progs.STRUCTS + progs.ENUMS + progs.NEWTYPES]
    report["rewrites"].append("R-sink: the descriptor functions of the generated impls, each on a struct with the inner sink or value as its only field")
    b = "\n".join(out)
    for p, r in PATHS:
        b = b.replace(p, r)
    src = parse_text(b, "derive")
    for f in src.fns:
        k = f["key"]
        n = getattr(NAMES.get(k), "rename", None) or NAMES[k].name
        FNS[k] = C(props=["C32"], ens=[ENS[k]] if k in ENS else [], entry="reveal_strlit(%s);" % progs.q(n))
    weave_all(src, FNS, report, [], UNCONTRACTED)
    title = {x.name: progs.q(getattr(x, "rename", None) or x.name) for x in progs.STRUCTS}
    y = re.sub(r"/\*dsc (\w+)\*/", lambda m: "open spec fn dsc(&self) -> Dsc { Dsc { name: Some(%s@), ..nothing() } }" % title[m.group(1)], src.render(0, len(src.data)))
    m = re.search(r"pub trait Descriptor \{.*?\n\}\n", base, re.S)
    return HEAD + "verus! {\n" + GLOBAL + m.group(0) + spec("descr.rs") + "\n// ==== extracted ====\n" + y + "\n} // verus!\nfn main() {}\n"


if __name__ == "__main__":
    rep = new_report()
    open("/tmp/w/descr_gen.rs", "w").write(build(rep))
    print(json.dumps({k: rep[k] for k in ("uncontracted", "missing", "drift", "undecided", "dropped")}, indent=1))
