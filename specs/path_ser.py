"""Contracts of deser-path/src/ser.rs: tracking the path during serialization."""
from vlib.weave import *
from vlib.expand import *
from specs.core import types, spec, item_text
from specs.driver_de import HEAD, GLOBAL

SRC = "deser-path/src/ser.rs"
UNCONTRACTED = []
THEOREMS = {"C21": ["lemma_top"]}
FNS = {}
A, B = "st(*old(state), *old(vf))", "st(*final(state), *final(vf))"

# names the final value of the reborrowed field
FIN = "let ghost fin = final(self).emitter;"


def F(k, **kw):
    FNS[k] = C(props=["C21"], **kw)


F("PathSerializable::wrap", ens=["ser_of(r.serializable) == *serializable"])
F("PathSerializable::wrap_ref", ens=["r.serializable == serializable"])
F("PathSerializable::serialize", ens=["ser_tracked(ser_of(self.serializable), %s, r, %s)" % (A, B)])
F("PathSerializable::finish", ens=["call_fin(ser_of(self.serializable), %s, r, %s)" % (A, B)])
F("SegmentPushingSerializable::serialize", req=["old(vf).at()[self.segment.id()] is Some"], ens=["push_ser(*self, %s, r, %s)" % (A, B)])
F("SegmentPushingSerializable::finish", ens=["push_fin(*self, %s, r, %s)" % (A, B)])
F("SegmentCollectingSerializable::serialize", ens=["coll_ser(*self, %s, r, %s)" % (A, B)], entry_raw="broadcast use core_std;")
F("SegmentCollectingSerializable::finish", ens=["call_fin(ser_of(self.serializable), %s, r, %s)" % (A, B)])
for t in ("PathSerializable", "SegmentPushingSerializable", "SegmentCollectingSerializable"):
    F(t + "::is_optional", ens=["r == optional(ser_of(self.serializable))"])
    F(t + "::descriptor", ens=["r == desc_of(ser_of(self.serializable))"])
F("PathStructEmitter::next", ens=["pstruct_next(*old(self), %s, r, *final(self), %s)" % (A, B)], entry_raw="broadcast use core_std; " + FIN)
F("PathSeqEmitter::next", req=["old(self).index < usize::MAX"], ens=["pseq_next(*old(self), %s, r, *final(self), %s)" % (A, B)], entry_raw=FIN)
F("PathMapEmitter::next_key", ens=["pmap_key(*old(self), %s, r, *final(self), %s)" % (A, B)], entry_raw=FIN)
F("PathMapEmitter::next_value", ens=["pmap_value(*old(self), %s, r, *final(self), %s)" % (A, B)], entry_raw=FIN)
F("Path::segments", ens=["r@ == self.segments@"])


def cells(t, state, report):
    """R-state, R-cell."""
    t = re.sub(r"(?m)^\s*use [^;]*;", "", t)
    t = re.sub(r"(?m)^\s*//.*$", "", t)
    cell = r"(?:Rc<RefCell<Option<PathSegment>>>|RefCell<Option<PathSegment>>)"
    t, n1 = re.subn(cell, "VfCell", t)
    t, n = re.subn(r"\bstate: &%s\b" % state, "state: &mut %s, vf: &mut VfCells" % state, t)
    t, m = re.subn(r"\bstate\.get_mut::<Path>\(\)", "state.vf_path()", t)
    t = re.sub(r"\bstate\.get::<Path>\(\)", "state.vf_path_ref()", t)
    t, k = re.subn(r"(\.\w+\((?:\w+, )?)state\)", r"\1state, vf)", t)
    report["rewrites"].append("R-state x%d the state is an exclusive reference, state.get_mut::<Path>() borrows its path" % (n + m + k))
    t, a = re.subn(r"\bRc::default\(\)", "vf_cell(vf, None)", t)
    t, b = re.subn(r"\b(?:Rc::new\()?RefCell::new\(", "vf_cell(vf, ", t)
    t, c = re.subn(r"\bself\s*\.(\w+)\s*(?:\.borrow_mut\(\)\s*)?\.take\(\)(?=\s*\.unwrap)", r"vf_take(&self.\1, vf)", t)
    t, c2 = re.subn(r"\b(capture\w*|captured\w*)\s*\.borrow_mut\(\)\s*\.take\(\)", r"vf_take(\1, vf)", t)
    d = 0
    while True:
        x = re.search(r"\*((?:self\.)?\w+)\.borrow_mut\(\) = ", t)
        if not x:
            break
        i, depth = x.end(), 0
        while not (t[i] == ";" and depth == 0):
            depth += t[i] in "({["
            depth -= t[i] in ")}]"
            i += 1
        t = t[:x.start()] + "vf_put(&%s, vf, %s)" % (x.group(1), t[x.end():i]) + t[i:]
        d += 1
    t, e1 = re.subn(r"\b((?:self\s*\.)?\w+)\s*\.borrow_mut\(\)", r"vf_borrow_mut(&\1, vf)", t)
    t, e2 = re.subn(r"\b((?:self\s*\.)?\w+)\s*\.borrow\(\)", r"vf_borrow(&\1, vf)", t)
    d += e1 + e2
    report["rewrites"].append("R-cell x%d RefCells are names of cells in vf" % (n1 + a + b + c + c2 + d))
    return t


def dyn(x):
    for k, v in (("Seq", "SeqEm"), ("Map", "MapEm"), ("Struct", "StructEm")):
        x = re.sub(r"Box<dyn %sEmitter \+ 'a>" % k, v + "<'a>", x)
        x = re.sub(r"Box<dyn %sEmitter>" % k, v + "<'static>", x)
        x = re.sub(r"\b(Chunk::%s\()Box::new\(" % k, r"\1%s::vf_new(" % v, x)
    x = re.sub(r"\bdyn Serialize\b", "DynSer", x)
    x = re.sub(r"\bSerializeHandle::Borrowed\(", "SerializeHandle::vf_borrowed(", x)
    return x


def path_cells(state, log):
    return spec("path_cells.rs").replace("STATE", state).replace("LOG", log)


def path_types(report):
    lib = load("deser-path/src/lib.rs", set(), report)
    t = item_text(lib, "enum", "PathSegment") + "\n" + item_text(lib, "struct", "Path") + "\n"
    t += "impl Clone for PathSegment {\n    #[verifier::external_body]\n    fn clone(&self) -> (r: Self) ensures seg(r) == seg(*self) { unimplemented!() }\n}\n"   # derived
    return t.replace("pub(crate)", "pub")


def path_impl(report):
    lib = load("deser-path/src/lib.rs", set(), report)
    i = [x for x in lib.items if x["kind"] == "impl" and re.match(r"impl Path\b", lib.text(x["span"]))]
    if len(i) != 1:
        raise Drift("impl Path not found")
    return re.sub(r"(?m)^\s*//.*$", "", lib.text(i[0]["span"]))


def build(report):
    d = cells(load(SRC, set(), report).data.decode(), "SerializerState", report) + "\n" + path_impl(report)
    d = dyn(d)
    report["rewrites"].append("R-dyn Box<dyn Emitter> and dyn Serialize are opaque types with the methods of the traits")
    d, n = re.subn(r"\bimpl<'a> (?:Serialize|SeqEmitter|MapEmitter|StructEmitter) for (\w+)", r"impl<'a> \1", d)
    report["rewrites"].append("R-inherent x%d trait impls are inherent impls" % n)
    chunk = parse_text(module(module(expanded("deser"), ["ser"]), ["chunk"]), "deser::ser::chunk")
    ck = [i for i in chunk.items if i["kind"] == "enum" and i["name"] == "Chunk"]
    if len(ck) != 1:
        raise Drift("Chunk not found")
    src = parse_text(d, SRC)
    rule_vis(src, report)
    weave_all(src, FNS, report)
    return (HEAD + "verus! {\n" + GLOBAL + types(report) + path_types(report) + dyn(chunk.text(ck[0]["span"])) + path_cells("SerializerState", "(DynSer, Seq<Seg>)") + spec("path_ser.rs") + spec("path_ser_lemmas.rs")
            + "\n// ==== extracted ====\n" + src.render(0, len(src.data)) + "\n} // verus!\nfn main() {}\n")


if __name__ == "__main__":
    rep = new_report()
    open("/tmp/w/path_ser.rs", "w").write(build(rep))
    print(json.dumps({k: rep[k] for k in ("uncontracted", "missing", "drift", "undecided")}, indent=1))
