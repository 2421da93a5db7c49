"""Contracts of deser/src/extensions.rs and the state accessors: values kept per type."""
from vlib.weave import *
from vlib.expand import *
from specs.core import spec
from specs.driver_de import HEAD

UNCONTRACTED = []
FNS = {}
THEOREMS = {"C31": ["lemma_kept", "lemma_first", "lemma_others"]}
S0, S1 = "old(self).map.at()", "final(self).map.at()"
T = "type_id::<T>()"


def F(k, **kw):
    FNS[k] = C(props=["C31"], **kw)


F("TypeKey::of", ens=["r.0 == " + T, "of_type(r)"])
F("TypeKey::eq", ens=["of_type(*self) && of_type(*other) ==> r == (self.0 == other.0)"])
F("TypeKey::hash", ens=["final(state).fed().len() >= old(state).fed().len()", "final(state).fed().take(old(state).fed().len() as int) =~= old(state).fed()",
                        "forall|k: int| old(state).fed().len() <= k < final(state).fed().len() ==> match #[trigger] final(state).fed()[k] { Fed::Id(t) => t == self.0, Fed::Name(s) => s == self.1@ }"])
F("<Extensions as Default>::default", ens=["r.map.at() == Map::<TypeId, VfBox>::empty()"])
F("Extensions::insert", ens=["put(%s, value, %s)" % (S0, S1)])
REQ = ["sound(%s)" % S0, "call_requires(T::default, ())"]
F("Extensions::ensure", req=REQ, ens=["ensured::<T>(%s, %s)" % (S0, S1), "sound(%s)" % S1])
F("Extensions::get", req=REQ, ens=["got::<T>(%s, *r, %s)" % (S0, S1), "sound(%s)" % S1])
F("Extensions::get_mut", req=REQ, ens=["got_mut::<T>(%s, *r, *final(r), %s)" % (S0, S1), "sound(%s)" % S1],
  entry_raw="let ghost a = self.map.at(); let ghost fin = final(self).map;")
for t in ("SerializerState", "DeserializerState"):
    E0, E1 = S0.replace(".map", ".extensions.map"), S1.replace(".map", ".extensions.map")
    R = [x.replace(".map", ".extensions.map") for x in REQ]
    F(t + "::get", req=R, ens=["got::<T>(%s, *r, %s)" % (E0, E1), "sound(%s)" % E1])
    F(t + "::get_mut", req=R, ens=["got_mut::<T>(%s, *r, *final(r), %s)" % (E0, E1), "sound(%s)" % E1], entry_raw="let ghost fin = final(self).extensions;")


def items(src, want):
    """Text of the items of src that `want` picks."""
    return "\n".join(src.text(i["span"]) for i in src.items if i["in_fn"] < 0 and want(i, " ".join(src.text(i["span"]).split())))


def body(report):
    t = expanded("deser")
    e = parse_text(macros(module(t, ["extensions"]), report, "deser::extensions"), "deser::extensions")
    drop = lambda i, x: i["kind"] == "use" or re.search(r"^impl [\w:]*Debug for|^(pub )?trait DebugAny|DebugAny for T", x)
    for i in e.items:
        if i["in_fn"] < 0 and i["kind"] in ("impl", "trait") and drop(i, " ".join(e.text(i["span"]).split())):
            report["dropped"].append(" ".join(e.text(i["span"]).split())[:70])
    x = items(e, lambda i, x: not drop(i, x))
    out = [x]
    for mod, name in (("de", "DeserializerState"), ("ser", "SerializerState")):
        top = parse_text(without_modules(module(t, [mod])), "deser::" + mod)
        out.append(items(top, lambda i, x: i["kind"] == "struct" and i["name"] == name))
        b = items(top, lambda i, x: i["kind"] == "impl" and re.match(r"impl(<'\w+>)? %s\b" % name, x))
        s = parse_text(b, "impl")
        keep = "\n".join(s.text(f["span"]) for f in s.fns if f["parent_fn"] < 0 and f["name"] in ("get", "get_mut"))
        report["dropped"] += ["%s::%s" % (name, f["name"]) for f in s.fns if f["name"] not in ("get", "get_mut")]
        out.append("impl<'a> %s<'a> {\n%s\n}" % (name, keep))
    x = "\n".join(out)
    x = re.sub(r"RefCell<HashMap<TypeKey,\s*Box<dyn DebugAny>>>", "VfMap", x)
    x = re.sub(r"map: ::core::default::Default::default\(\)", "map: VfMap::empty()", x)
    x = re.sub(r"::core::default::Default\b", "Default", x)
    x = re.sub(r"\bfmt::Debug\b|\bDebug\b", "VF_DBG", x)
    x = re.sub(r"VF_DBG \+ |\+ VF_DBG", "", x)
    x = re.sub(r"impl (?:Hash|PartialEq) for TypeKey", "impl TypeKey", x)
    x = re.sub(r"impl Eq for TypeKey \{\s*\}", "", x)
    x = re.sub(r"fn (insert|get|get_mut|ensure)(<[^>]*>)\(&self\b", r"fn \1\2(&mut self", x)
    x = re.sub(r"\bRefMut<'_, T>", "&mut T", x)
    x = re.sub(r"\bRef<'_, T>", "&T", x)
    report["rewrites"].append("R-cell self is exclusive: RefCell<T> is T, borrow() and borrow_mut() are references to it, Ref<T> and RefMut<T> are &T and &mut T")
    # Ref::map(X, |m| B) is { let m = X; B }
    while True:
        m = re.search(r"\bRef(?:Mut)?::map\(", x)
        if not m:
            break
        e = balanced(x, m.end() - 1, "(", ")")
        y = re.match(r"^(.*?),\s*\|(\w+)\|\s*(.*)$", x[m.end():e - 1], re.S)
        if not y:
            raise Drift("Ref::map of an unknown shape")
        x = x[:m.start()] + "{ let %s = %s; %s }" % (y.group(2), y.group(1), y.group(3)) + x[e:]
        report["rewrites"].append("R-refmap Ref::map(X, |m| B) is { let m = X; B }")
    x = re.sub(r"\bself\s*\.map\s*\.borrow_mut\(\);", "&mut self.map;", x)
    x = re.sub(r"\bself\s*\.map\s*\.borrow\(\);", "&self.map;", x)
    x = re.sub(r"\bself\s*\.map\s*\.borrow(?:_mut)?\(\)", "self.map", x)
    x, n = re.subn(r"\(\*\*(\w+)\)\s*\.as_any(?:_mut)?\(\)", r"\1", x)
    x = re.sub(r"\bBox::new\(", "VfBox::new(", x)
    report["rewrites"].append("R-any x%d Box<dyn DebugAny> is an opaque value of some type, as_any is the identity" % n)
    # E.and_then(|b| F) is match E { Some(b) => F, None => None }
    while True:
        m = re.search(r"(\w+\s*\.\s*get(?:_mut)?\(&TypeKey::of::<T>\(\)\))\s*\.and_then\(\s*\|(\w+)\|", x)
        if not m:
            break
        o = x.index("(", m.start(0) + len(m.group(1)))
        e = balanced(x, o, "(", ")")
        x = x[:m.start()] + "match %s { Some(%s) => %s, None => None }" % (m.group(1), m.group(2), x[m.end():e - 1].strip()) + x[e:]
        report["rewrites"].append("R-andthen E.and_then(|b| F) is match E { Some(b) => F, None => None }")
    return x


def build(report):
    src = parse_text(body(report), "deser (macro expanded): extensions, de, ser")
    rule_vis(src, report)
    weave_all(src, FNS, report, [], UNCONTRACTED)
    return HEAD + "verus! {\n" + spec("ext.rs") + "\n// ==== extracted ====\n" + src.render(0, len(src.data)) + "\n} // verus!\nfn main() {}\n"


if __name__ == "__main__":
    rep = new_report()
    open("/tmp/w/ext.rs", "w").write(build(rep))
    print(json.dumps({k: rep[k] for k in ("uncontracted", "missing", "drift", "undecided", "dropped")}, indent=1))
