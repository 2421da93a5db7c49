"""Contracts of the descriptors (deser/src/descriptors.rs) and of every Serialize::descriptor (ser/impls.rs)."""
from vlib.weave import *
from vlib.expand import *
from specs.core import spec
from specs.driver_de import HEAD, GLOBAL

UNCONTRACTED = []
THEOREMS = {}
FNS = {}
TRAIT = {"name": "match r { Some(x) => self.dsc().name == Some(x@), None => self.dsc().name is None }", "precision": "self.dsc().precision != Some(0usize) ==> r == self.dsc().precision", "unordered": "r == self.dsc().unordered"}
DSC = {
    "NullDescriptor": "nothing()",
    "NamedDescriptor": "Dsc { name: Some(self.name@), ..nothing() }",
    "NumberDescriptor": "Dsc { name: Some(self.name@), precision: Some(self.precision), unordered: false }",
    "UnorderedNamedDescriptor": "Dsc { name: Some(self.name@), precision: None, unordered: true }",
}
BITS = dict(u8=8, u16=16, u32=32, u64=64, usize=64, i8=8, i16=16, i32=32, i64=64, isize=64, f32=32, f64=64)
POINTER = ("&T", "&mutT", "&mut T", "Box<T>")


def says(ty):
    """What the descriptor of a value of type ty says, for all values."""
    if ty in BITS:
        return 'number(d, "%s"@, %d)' % (ty, BITS[ty])
    if ty in POINTER:
        return "(**self).says(d)"
    if ty == "Option<T>":
        return "true"
    if ty.startswith("Hash"):
        return "shuffled(d)"
    if ty in ("bool", "()", "char", "String", "&str", "Cow<str>", "Vec<T>", "&[T]", "[T;N]") or ty.startswith(("BTree", "(")):
        return "plain(d)"
    raise Drift("no specification of the source type %s" % ty)


def receives(ty):
    """What the descriptor of the sink of a target type ty says."""
    if ty in ("Box<T>", "Option<T>"):
        return "d == self.sink.dsc()"
    if ty.startswith("Hash"):
        return "d.unordered"
    if ty.startswith("BTree"):
        return "true"
    return "!d.unordered"


def sinks(t, report):
    """R-sink: the descriptor functions of the sinks of de::impls, each on a
    struct that has the sink's inner sink as its only field."""
    body = macros(module(module(t, ["de"]), ["impls"]), report, "deser::de::impls")
    s = parse_text(body, "deser::de::impls")
    out, n = [], 0
    for f in s.fns:
        if f["name"] != "descriptor" or f["trait"] != "Sink":
            continue
        p = s.fns[f["parent_fn"]] if f["parent_fn"] >= 0 else None
        ty = strip_lt(p["self_ty"] if p else f["self_ty"])
        m = re.match(r"SlotWrapper<(.*)>$", ty)
        ty = m.group(1) if m else "Option<T>" if ty == "NullIgnoringSink" else ty
        out.append("#[verifier::reject_recursive_types(T)] pub struct VfSink%d<T> { pub sink: VfInner, pub _p: Vec<T> }\nimpl<T: Serialize> VfSink%d<T> {\n/*receives %s*/\n%s\n}" % (n, n, ty, s.text(f["span"])))
        SINKS["VfSink%d<T>::descriptor" % n] = receives(ty).replace("d.", "r.dsc().").replace("d ==", "r.dsc() ==")
        n += 1
    if n < 20:
        raise Drift("sinks of deser::de::impls not found")
    report["rewrites"].append("R-sink x%d" % n)
    return out


SINKS = {}


def statics(x, report, name):
    """R-static: `static X: T = E;` in a function body is `let X = vf_static::<T>(E)`, a use of X is *X."""
    for _ in range(400):
        s = parse_text(x, name)
        it = [i for i in s.items if i["kind"] == "static" and i["in_fn"] >= 0]
        if not it:
            return x
        i = it[0]
        f = s.fns[i["in_fn"]]
        a, b = i["span"]
        head, rest = s.data[:b].decode(), s.data[b:f["span"][1]].decode()
        rest = re.sub(r"\b%s\b" % i["name"], "(*vf_%s)" % i["name"], rest)
        x = s.data[:a].decode() + "let vf_%s: &'static %s = vf_static::<%s>(%s);" % (i["name"], i["ty"], i["ty"], s.text(i["expr"])) + rest + s.data[f["span"][1]:].decode()
    raise Drift("statics")


def build(report):
    t = expanded("deser")
    d = parse_text(module(t, ["descriptors"]), "deser::descriptors")
    out, default, defs = [], {}, ""
    for i in d.items:
        x = d.text(i["span"])
        if i["kind"] == "struct":
            out.append(re.sub(r"\bpub pub\b", "pub", re.sub(r"(?m)^(\s+)(?:pub\([^)]*\) |pub )?(name|precision):", r"\1pub \2:", x)))
        if i["kind"] == "trait" and i["name"] == "Descriptor":
            tr = parse_text(x, "trait")
            for f in tr.fns:
                if f["name"] not in TRAIT:
                    raise Drift("Descriptor::%s is not specified" % f["name"])
                if not f["body"]:
                    raise Drift("Descriptor::%s has no default" % f["name"])
                default[f["name"]] = tr.text(f["span"])
    if sorted(default) != sorted(TRAIT):
        raise Drift("methods of Descriptor")
    decl = {n: re.match(r"[^{]*", x).group(0).strip() for n, x in default.items()}
    ret = lambda n: re.sub(r"->\s*(.*)$", r"-> (r: \1)", decl[n], flags=re.S)
    defs = "pub trait Descriptor {\n spec fn dsc(&self) -> Dsc;\n" + "\n".join(" %s ensures %s;" % (ret(n), TRAIT[n]) for n in TRAIT) + "\n}\n"
    for i in d.items:
        x = d.text(i["span"])
        if i["kind"] != "impl" or i["in_fn"] >= 0:
            continue
        p = parse_text(x, "impl")
        m = re.search(r"impl (?:crate::descriptors::|crate::)?Descriptor for (\w+)", " ".join(x.split()))
        if not m or m.group(1) not in DSC:
            raise Drift("impl of Descriptor: " + " ".join(x.split())[:60])
        have = set(f["name"] for f in p.fns)
        e = x.rindex("}")
        body = x[:e] + "\n".join(default[n] for n in TRAIT if n not in have) + "\n}"
        report["rewrites"] += ["R-default %s for %s" % (n, m.group(1)) for n in TRAIT if n not in have]
        o = body.index("{") + 1
        out.append(body[:o] + "\n/*dsc %s*/" % m.group(1) + body[o:])
    ser = module(t, ["ser"])
    top = parse_text(without_modules(ser), "deser::ser")
    st = [i for i in top.items if i["kind"] == "trait" and i["name"] == "Serialize"]
    if len(st) != 1:
        raise Drift("trait Serialize not found")
    tr = parse_text(top.text(st[0]["span"]), "trait Serialize")
    fd = [f for f in tr.fns if f["name"] == "descriptor"]
    fb = [f for f in tr.fns if f["name"] == "__private_slice_as_bytes"]
    if len(fd) != 1 or len(fb) != 1 or not fd[0]["body"]:
        raise Drift("Serialize::descriptor not found")
    pre = "pub trait Serialize: Sized {\n spec fn says(&self, d: Dsc) -> bool;\n fn descriptor(&self) -> (r: &dyn Descriptor) ensures self.says(r.dsc());\n #[verifier::external_body] fn __private_slice_as_bytes(val: &[Self]) -> (r: Option<Cow<'_, [u8]>>) { unimplemented!() }\n #[verifier::external_body] fn __private_is_bytes() -> (r: bool) { unimplemented!() }\n}\n"
    # the default is the descriptor of a type that has none of its own
    out.append("struct VfNoDescriptor;\nimpl VfNoDescriptor {\n%s\n}" % tr.text(fd[0]["span"]))
    body = macros(module(ser, ["impls"]), report, "deser::ser::impls")
    s = parse_text(body, "deser::ser::impls")
    for i in s.items:
        x = s.text(i["span"])
        if i["kind"] != "impl" or i["in_fn"] >= 0 or not re.match(r"impl\b[^{]*\bSerialize for ", x):
            continue
        p = parse_text(x, "impl")
        f = [f for f in p.fns if f["name"] == "descriptor" and f["parent_fn"] < 0]
        if len(f) > 1:
            raise Drift("descriptor twice")
        ty = strip_lt(p.fns[0]["self_ty"])
        h = x[:x.index("{")]
        if f:
            fx = p.text(f[0]["span"])
        else:
            fx = tr.text(fd[0]["span"])
            report["rewrites"].append("R-default descriptor for %s" % ty)
        out.append(h + "{\n/*says %s*/\n" % ty + fx + "\n}")
    out += sinks(t, report)
    x = "\n".join(out)
    x = re.sub(r"\b(?:crate::)?descriptors::|\bcrate::", "", x)
    x = re.sub(r"(?:std|core)::mem::size_of::<(\w+)>\(\)", lambda m: str(BITS[m.group(1)] // 8) if m.group(1) in BITS else m.group(0), x)
    report["rewrites"].append("size_of of the number types is their width in bytes (64-bit target)")
    x = statics(x, report, "descr")
    src = parse_text(x, "deser (macro expanded): descriptors, ser::impls")
    rule_vis(src, report)
    for f in src.fns:
        FNS[f["key"]] = C(props=["C32"], entry="".join('reveal_strlit(%s);' % m for m in sorted(set(re.findall(r'"\w*"', src.text(f["span"]))))))
        if f["key"] in SINKS:
            FNS[f["key"]] = C(props=["C32"], ens=[SINKS[f["key"]]])
    FNS["VfNoDescriptor::descriptor"] = C(props=["C32"], ens=["r.dsc() == nothing()"])
    weave_all(src, FNS, report, [], UNCONTRACTED)
    y = src.render(0, len(src.data))
    y = re.sub(r"/\*dsc (\w+)\*/", lambda m: "open spec fn dsc(&self) -> Dsc { %s }" % DSC[m.group(1)], y)
    y = re.sub(r"/\*says (.*?)\*/", lambda m: "open spec fn says(&self, d: Dsc) -> bool { %s }" % says(m.group(1)), y)
    return HEAD + "use std::collections::*;\nuse std::hash::BuildHasher;\nverus! {\n" + GLOBAL + defs + pre + spec("descr.rs") + "\n// ==== extracted ====\n" + y + "\n} // verus!\nfn main() {}\n"


if __name__ == "__main__":
    rep = new_report()
    open("/tmp/w/descr.rs", "w").write(build(rep))
    print(json.dumps({k: rep[k] for k in ("uncontracted", "missing", "drift", "undecided", "dropped")}, indent=1))
