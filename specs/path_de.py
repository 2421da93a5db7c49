"""Contracts of deser-path/src/de.rs: tracking the path during deserialization."""
from vlib.weave import *
from vlib.expand import *
from specs.core import types, spec, item_text
from specs.driver_de import HEAD, GLOBAL
from specs.path_ser import cells, path_types, path_impl, path_cells, FIN

SRC = "deser-path/src/de.rs"
UNCONTRACTED = []
THEOREMS = {"C22": ["lemma_top"]}
FNS = {}
A, B = "st(*old(state), *old(vf))", "st(*final(state), *final(vf))"
X, Y = "*old(self)", "*final(self)"
ROOM = "settled(*old(self), segs(old(state).path.segments@))"
FINS = FIN.replace(".emitter", ".sink")


def F(k, **kw):
    FNS[k] = C(props=["C22"], **kw)


K = "PathSink::"
NEW = ["r.container is None && r.set_segment is None && !r.pushed"]
F(K + "wrap", ens=["borrows(r.sink, *old(sink), *final(sink))"] + NEW)
F(K + "wrap_ref", ens=["r.sink == sink"] + NEW)
F(K + "set_segment", req=[ROOM], ens=["ps_set(%s, %s, %s, %s)" % (X, A, Y, B)])
F(K + "atom", req=[ROOM], ens=["ps_atom(%s, %s, atom_ev(atom), r, %s, %s)" % (X, A, Y, B)], entry_raw="broadcast use core_std; " + FINS)
for k, m in (("map", "true"), ("seq", "false")):
    F(K + k, req=[ROOM], ens=["ps_open(%s, %s, %s, r, %s, %s)" % (X, A, m, Y, B)], entry_raw=FINS)
F(K + "next_key", req=["old(self).container is Map"], ens=["ps_key(%s, %s, r, %s, %s)" % (X, A, Y, B)], entry_raw=FINS)
F(K + "next_value", req=["old(self).container is Seq ==> old(self).container->Seq_0 < usize::MAX"], ens=["ps_value(%s, %s, r, %s, %s)" % (X, A, Y, B)], entry_raw=FINS)
F(K + "finish", ens=["ps_finish(%s, %s, r, %s, %s)" % (X, A, Y, B)], entry_raw=FINS)
F(K + "descriptor", ens=["r == desc_of(self.sink)"])
F(K + "expecting", ens=["cow_str(r) == wanted(self.sink)"])
F("Path::segments", ens=["r@ == self.segments@"])


def res_map(t, report):
    """R-optmap: `R.map(|x| { B })` on a Result is `match R { Ok(x) => Ok(B), Err(e) => Err(e) }`."""
    while True:
        m = re.search(r"\b(self\.sink\.\w+\(state, vf\))\s*\.map\(\|(\w+)\| ", t)
        if not m:
            return t
        i = t.index(".map(", m.start()) + 4
        e = balanced(t, i, "(", ")")
        t = t[:m.start()] + "match " + m.group(1) + " { Ok(" + m.group(2) + ") => Ok(" + t[m.end():e - 1] + "), Err(vf_e) => Err(vf_e) }" + t[e:]
        report["rewrites"].append("R-optmap " + m.group(1))


def build(report):
    d = cells(load(SRC, set(), report).data.decode(), "DeserializerState", report) + "\n" + path_impl(report)
    d = res_map(d, report)
    d, n = re.subn(r"\busize::try_from\((\w+)\)\.ok\(\)\.map\(PathSegment::Index\)", r"(match vf_usize(\1) { Some(vf_i) => Some(PathSegment::Index(vf_i)), None => None })", d)
    report["rewrites"].append("R-optmap x%d usize::try_from(..).ok().map(..)" % n)
    d, n = re.subn(r"\*(state\.vf_path\(\)\.segments)\s*\.last_mut\(\)\s*\.unwrap\(\) = (\w+);", r"vf_set_last(&mut \1, \2);", d)
    report["rewrites"].append("R-lastmut x%d *v.last_mut().unwrap() = x is vf_set_last(&mut v, x), v not empty" % n)
    d, n = re.subn(r"\bunreachable!\(\)", "vf_panic()", d)
    report["rewrites"].append("R-panic x%d" % n)
    d = re.sub(r"\bdyn Sink\b", "DynSink", d)
    d, n = re.subn(r"\bimpl<'a> Sink for (\w+)", r"impl<'a> \1", d)
    report["rewrites"].append("R-inherent x%d trait impls are inherent impls; R-dyn dyn Sink is opaque" % n)
    src = parse_text(d, SRC)
    rule_vis(src, report)
    weave_all(src, FNS, report)
    return (HEAD + "verus! {\n" + GLOBAL + types(report) + path_types(report) + path_cells("DeserializerState", "(Ev, Seq<Seg>)") + spec("path_de.rs") + spec("path_de_lemmas.rs")
            + "\n// ==== extracted ====\n" + src.render(0, len(src.data)) + "\n} // verus!\nfn main() {}\n")


if __name__ == "__main__":
    rep = new_report()
    open("/tmp/w/path_de.rs", "w").write(build(rep))
    print(json.dumps({k: rep[k] for k in ("uncontracted", "missing", "drift", "undecided")}, indent=1))
