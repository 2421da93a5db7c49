"""Contracts of the handles, owned sinks and state accessors (deser/src/de/mod.rs, de/owned.rs, ser/mod.rs)."""
from vlib.weave import *
from vlib.expand import *
from specs.core import spec
from specs.driver_de import unmanual, manual, drop_fn, transmutes, drop_drops, HEAD, GLOBAL

UNCONTRACTED = []
THEOREMS = {}
FNS = {}


def F(k, props, ens, **kw):
    FNS[k] = C(props=props, ens=ens, **kw)


SK = ["C18"]
F("SinkHandle::deref", SK, ["*r == behind(*self)"])
F("SinkHandle::deref_mut", SK, ["*r == behind(*old(self))", "*old(self) is Null <==> *final(self) is Null", "!(*old(self) is Null) ==> behind(*final(self)) == *final(r)"])
F("SinkHandle::to", SK, ["r is Borrowed", "*r->Borrowed_0 == *old(val)", "*final(r->Borrowed_0) == *final(val)"])
F("SinkHandle::boxed", SK, ["behind(r) == dyn_sink(val)", "!(r is Null)"])
F("SinkHandle::null", SK + ["C20"], ["behind(r) == dyn_sink(Ignore)", "r is Null"])
SE = ["C17"]
F("SerializeHandle::deref", SE, ["*r == told(*self)"])
F("SerializeHandle::to", SE, ["told(r) == dyn_ser(*val)"])
F("SerializeHandle::boxed", SE, ["told(r) == dyn_ser(val)"])
OW = ["C14", "C24", "C26"]
F("OwnedSink<T>::deserialize", OW, ["T::feeds(r.sink, None, *r.storage)"])
F("OwnedSink<T>::borrow", OW, ["*r == self.sink"])
F("OwnedSink<T>::borrow_mut", OW, ["*r == old(self).sink", "final(self).sink == *final(r)", "final(self).storage == old(self).storage"])
F("OwnedSink<T>::take", OW, ["r == *old(self).storage", "*final(self).storage is None", "final(self).sink == old(self).sink"])
F("OwnedSink<T>::vf_drop", ["C34"], ["final(vf_log).log() == old(vf_log).log().push(Held::Sink).push(Held::Slot)"], noret=True)
for t in ("DeserializerState", "SerializerState"):
    F(t + "::depth", ["C18" if t[0] == "D" else "C17"], ["r == self.descriptor_stack@.len()"])
    F(t + "::top_descriptor", ["C18" if t[0] == "D" else "C17"], ["match r { Some(d) => self.descriptor_stack@.len() > 0 && d == self.descriptor_stack@.last(), None => self.descriptor_stack@.len() == 0 }"])


def fields_pub(x):
    return re.sub(r"(?m)^(\s+)(extensions|descriptor_stack|storage|sink):", r"\1pub \2:", x)


def deref_impl(x, name):
    """R-inherent: Deref / DerefMut of a handle as inherent functions."""
    x, n = re.subn(r"impl<'a> (?:\w+::)*Deref(?:Mut)? for %s<'a> \{" % name, "impl<'a> %s<'a> {" % name, x)
    return re.sub(r"Self::Target\b", "DynSink" if name == "SinkHandle" else "DynSer", re.sub(r"type Target = [^;]*;", "", x)) if n else x


def wrap(t, pat, fn):
    """R-unsize: the coercion of the expression after / the argument of pat to a trait object is fn."""
    out, n = "", 0
    while True:
        m = re.search(pat, t)
        if not m:
            return out + t, n
        if t[m.end() - 1] == "(":
            e = balanced(t, m.end() - 1, "(", ")") - 1
        else:
            e = min(x for x in (t.find(",", m.end()), t.find("}", m.end())) if x >= 0)
        out, t, n = out + t[:m.end()] + fn + "(" + t[m.end():e].strip() + ")", t[e:], n + 1


def build(report):
    t = expanded("deser")
    de, ser = module(t, ["de"]), module(t, ["ser"])
    out = []
    owned = macros(module(de, ["owned"]), report, "deser::de::owned")
    s = parse_text(owned, "deser::de::owned")
    mine = ""
    for i in s.items:
        x = s.text(i["span"])
        if i["in_fn"] < 0 and i["kind"] == "impl" and re.search(r"\bDrop for\b", x[:200]) and "OwnedSink" not in x[:200]:
            report["dropped"].append("impl Drop: " + " ".join(x[:60].split()))
        elif i["in_fn"] < 0 and "OwnedSink" in x[:200] and i["kind"] in ("struct", "impl"):
            mine += (fields_pub(x) if i["kind"] == "struct" else x) + "\n"
        elif i["in_fn"] < 0 and i["kind"] != "use":
            report["dropped"].append(" ".join(x.split())[:60])
    held = manual(mine)
    mine = unmanual(mine, report)
    try:
        out.append(drop_fn(mine, held, report, "deser::de::owned"))
    except Drift as e:
        out.append(drop_drops(mine, report, "deser::de::owned"))
        report["drift"]["OwnedSink<T>::vf_drop"] = str(e)
    for text, names in ((without_modules(de), ("SinkHandle", "DeserializerState")), (without_modules(ser), ("SerializeHandle", "SerializerState"))):
        s = parse_text(text, "deser")
        for i in s.items:
            x = s.text(i["span"])
            h = " ".join(x.split("{")[0].split())
            if i["in_fn"] >= 0 or i["kind"] not in ("struct", "enum", "impl") or "Debug for" in h:
                continue
            for n in names:
                if re.search(r"(?:^|\s)%s<'a>$" % n, h):
                    if i["kind"] == "impl" and n.endswith("State"):
                        p = parse_text(x, "impl")
                        keep = [f for f in p.fns if f["parent_fn"] < 0 and f["name"] not in ("get", "get_mut")]
                        x = "impl<'a> %s<'a> {\n%s\n}" % (n, "\n".join(p.text(f["span"]) for f in keep))
                    out.append(fields_pub(x) if i["kind"] == "struct" else deref_impl(x, n))
    x = "\n".join(out)
    x = unmanual(x, report)
    x, n = re.subn(r"(?:\w+::)*transmute::<_, &mut Option<T>>\(", "vf_alias(", x)
    report["rewrites"].append("R-extend x%d: transmute of the slot's reference is vf_alias (the same place, another lifetime)" % n)
    x = transmutes(x, [("SinkHandle", "vf_extend"), ("&SinkHandle", "vf_extend_ref"), ("&mut SinkHandle", "vf_extend_mut")], report)
    x = re.sub(r"\bNonuniqueBox\b", "Box", x)
    report["rewrites"].append("R-nonunique NonuniqueBox<T> (a Box without the uniqueness of its pointer) is Box<T>")
    x = re.sub(r"\b(?:ignore::)Ignore\b", "Ignore", x)
    n = [0] * 5
    x, n[0] = wrap(x, r"SinkHandle::Null\(ref mut \w+\) =>", "vf_dyn_ignore_mut")
    x, n[1] = wrap(x, r"SinkHandle::Null\((?:ref )?\w+\) =>", "vf_dyn_ignore")
    x = re.sub(r"SerializeHandle::Owned\(Box::new\(", "SerializeHandle::Owned(vf_dyn_ser_box(", x)
    x = re.sub(r"SinkHandle::Owned\(Box::new\(", "SinkHandle::Owned(vf_dyn_sink_box(", x)
    x = re.sub(r"SerializeHandle::Borrowed\((\w+) as &dyn Serialize\)", r"SerializeHandle::Borrowed(vf_dyn_ser(\1))", x)
    report["rewrites"].append("R-unsize coercions to a trait object are vf_dyn_*")
    x = re.sub(r"\bdyn Sink \+ 'a\b|\bdyn Sink\b", "DynSink", x)
    x = re.sub(r"\bdyn Serialize \+ 'a\b|\bdyn Serialize\b", "DynSer", x)
    ig = parse_text(module(de, ["ignore"]), "deser::de::ignore")
    x += "\n".join(ig.text(i["span"]) for i in ig.items if i["kind"] == "struct" and i["name"] == "Ignore")
    src = parse_text(x, "deser (macro expanded): de, de::owned, ser")
    rule_vis(src, report)
    weave_all(src, FNS, report, [], UNCONTRACTED)
    return HEAD + "verus! {\n" + GLOBAL + spec("handles.rs") + spec("drops.rs") + "\n// ==== extracted ====\n" + src.render(0, len(src.data)) + "\n} // verus!\nfn main() {}\n"


if __name__ == "__main__":
    rep = new_report()
    open("/tmp/w/handles.rs", "w").write(build(rep))
    print(json.dumps({k: rep[k] for k in ("uncontracted", "missing", "drift", "undecided", "dropped")}, indent=1))
