"""Contracts of the serialization driver (deser/src/ser/driver.rs)."""
from vlib.weave import *
from vlib.expand import *
from specs.core import types, spec
from specs.driver_de import unmanual, manual, drop_fn, transmutes, drop_drops, HEAD, GLOBAL

SRC = "deser (macro expanded): ser::driver"
UNCONTRACTED = []
THEOREMS = {"C17": ["lemma_traversal", "lemma_one_value"], "C28": ["lemma_one_value"]}
FNS = {}
V0, V1 = "old(self).sv()", "final(self).sv()"
# the driver itself leaves the extension values alone (C31)
EXT = "final(self).state.extensions == old(self).state.extensions"
NEW, KEEP = ("C31", "state.extensions", ["r.state.extensions.fresh()"]), ("C31", "state.extensions", [EXT])
P17 = dict(props=["C17"])

K = "SerializeDriver::"
FNS[K + "new"] = C(ens=["sv_ok(r.sv())", "r.next_event is None", "r.sv().states =~= seq![DriverState::Serialize]", "sval(r.sv().sers[0]) == *serializable", "r.sv().ems.len() == 0"], entry_raw="broadcast use fit;", tag=NEW, **P17)
FNS[K + "state"] = C(ens=["*r == self.state"], **P17)
FNS[K + "next"] = C(req=["sv_ok(%s)" % V0, "old(self).next_event is None"],
    ens=["advanced(%s, (match r { Ok(Some((e, d, _))) => Ok(Some((ev(e), d))), Ok(None) => Ok(None), Err(e) => Err(e) }), %s)" % (V0, V1),
         "r is Ok ==> sv_ok(%s) && final(self).next_event is None" % V1, "(r is Ok && r->Ok_0 is Some) ==> *(r->Ok_0->Some_0.2) == final(self).state"], tag=[KEEP, ("C34", "owned(", ["owned(%s)" % V1])], **P17)
FNS[K + "advance"] = C(req=["sv_ok(%s)" % V0, "old(self).next_event is None"],
    ens=["advanced(%s, (match r { Ok(_) => Ok(next_ev(final(self).next_event)), Err(e) => Err(e) }), %s)" % (V0, V1), "r is Ok ==> sv_ok(%s)" % V1],
    entry="lemma_reach0(self.sv());", entry_raw="broadcast use fit; let ghost v0 = self.sv();",
    loops=[L(["v0 == old(self).sv()", "reach(v0, self.sv())", "sv_ok(self.sv())", "self.next_event is None", "self.state.extensions == old(self).state.extensions"], ens=["self.state_stack@.len() == 0"], dec="to_go(self.sv())",
             end="if vi.states.last() is FinishSerialize { assert(self.sv().states =~= vi.states.drop_last()); } lemma_reach1(v0, vi, self.sv());")], tag=[KEEP, ("C34", "owned(", ["owned(%s)" % V1])], **P17)
FNS[K + "vf_drop"] = C(props=["C34"], req=["owned(%s)" % V0], ens=["final(vf_log).log() == old(vf_log).log() + (old(self).next_event.held() + unwind(%s))" % V0], noret=True,
    entry="lemma_no_states(self.state_stack@);", entry_raw="let ghost l0 = vf_log.log() + self.next_event.held(); let ghost v0 = self.sv();",
    loops=[L(["fits(self.sv())", "vf_log.log() + unwind(self.sv()) == l0 + unwind(v0)", "self.next_event is None"], ens=["self.state_stack@.len() == 0", "self.serializable_stack@.len() == 0", "self.emitter_stack@.len() == 0"], dec="self.state_stack@.len()")])
FNS["<SerializableOnStack as Deref>::deref"] = C(ens=["*r == sval(*self)"], **P17)


def while_let(body, report):
    """R-whilelet: `while let P = E { B }` is `loop { match E { P => { B } _ => { /*end*/ break; } } }`."""
    m = re.search(r"\bwhile let (Some\(\w+\)) = ([^{]*?) \{", body)
    if not m:
        return body
    e = balanced(body, m.end() - 1)
    report["rewrites"].append("R-whilelet " + m.group(0))
    return body[:m.start()] + "loop { /*vi*/ match " + m.group(2) + " { " + m.group(1) + " => {" + body[m.end():e] + " _ => { /*end*/ break; } } }" + body[e:]


def opt_map(body, report):
    """R-optmap: `O.map(|(a, b)| E)` on an Option is `match O { Some((a, b)) => Some(E), None => None }`."""
    m = re.search(r"Ok\(((?:self\.)?\w+(?:\s*\.\w+\(\))*)\s*\.map\(\|(\([\w, ]+\))\|", body)
    if not m:
        return body
    i = body.index(".map(", m.start()) + 4
    e = balanced(body, i, "(", ")")
    report["rewrites"].append("R-optmap " + " ".join(m.group(0).split()))
    return body[:m.start()] + "Ok(match " + m.group(1) + " { Some(" + m.group(2) + ") => Some(" + body[m.end():e - 1] + "), None => None }" + body[e:]


def build(report):
    t = expanded("deser")
    ser = module(t, ["ser"])
    body = module(ser, ["driver"])
    body = macros(body, report, "deser::ser::driver")
    body = re.sub(r"(?m)^\s*use [^;]*;", "", body)
    while re.search(r"macro_rules! \w+ \{", body):
        i = re.search(r"macro_rules! \w+ \{", body).start()
        body = body[:i] + body[balanced(body, body.index("{", i)):]
    held = manual(body)
    body = unmanual(body, report)
    body = transmutes(body, [("SerializeHandle", "vf_extend_handle"), ("Option<SerializeHandle>", "vf_extend_opt"), ("Chunk", "vf_extend_chunk"),
                             ("Option<(Cow<str>, SerializeHandle)>", "vf_extend_field"), ("Option<(Cow<'_, str>, SerializeHandle)>", "vf_extend_field"), ("&dyn Descriptor", "vf_extend_desc")], report)
    try:
        body = drop_fn(body, held, report, "deser::ser::driver")
    except Drift as e:
        body = drop_drops(body, report, "deser::ser::driver")
        report["drift"]["SerializeDriver::vf_drop"] = str(e)
    chunk = parse_text(module(ser, ["chunk"]), "deser::ser::chunk")
    ck = [i for i in chunk.items if i["kind"] == "enum" and i["name"] == "Chunk"]
    top = parse_text(without_modules(ser), "deser::ser")
    st = [i for i in top.items if i["kind"] == "struct" and i["name"] == "SerializerState"]
    if len(st) != 1 or len(ck) != 1:
        raise Drift("SerializerState or Chunk not found")
    types_ = top.text(st[0]["span"]) + "\n" + chunk.text(ck[0]["span"]) + "\n"
    types_ = re.sub(r"(?m)^(\s+)(extensions|descriptor_stack)", r"\1pub \2", types_)

    def dyn(x):
        for k, v in (("Seq", "SeqEm"), ("Map", "MapEm"), ("Struct", "StructEm")):
            x = re.sub(r"Box<dyn %sEmitter \+ 'a>" % k, v + "<'a>", x)
            x = re.sub(r"Box<dyn %sEmitter>" % k, v + "<'static>", x)
        x = re.sub(r"\bdyn Serialize\b", "DynSer", x)
        x = re.sub(r"\bSerializeHandle::Borrowed\(", "SerializeHandle::vf_borrowed(", x)
        x = re.sub(r"SerializableOnStack::StrCow\((\w+)\) => &\*\1,", r"SerializableOnStack::StrCow(\1) => vf_dyn_str(&*\1),", x)
        return x
    body, types_ = dyn(body), dyn(types_)
    report["rewrites"].append("R-dyn Box<dyn Emitter> and dyn Serialize are opaque types with the methods of the traits")
    body = while_let(opt_map(body, report), report)
    body = re.sub(r"\benum DriverState", "pub enum DriverState", body)
    src = parse_text(body, "deser::ser::driver")
    rule_vis(src, report)
    weave_all(src, FNS, report, [], [])
    return (HEAD + "use std::ops::Deref;\nverus! {\n" + GLOBAL + types(report) + types_ + spec("driver_ser.rs") + spec("drops.rs") + spec("events.rs") + spec("driver_ser_lemmas.rs") + "\n// ==== extracted ====\n"
            + src.render(0, len(src.data)).replace("/*vi*/", "let ghost vi = self.sv();").replace("/*end*/", "proof { assert(self.sv().states =~= vi.states); }") + "\n} // verus!\nfn main() {}\n")


if __name__ == "__main__":
    rep = new_report()
    open("/tmp/w/driver_ser.rs", "w").write(build(rep))
    print(json.dumps({k: rep[k] for k in ("uncontracted", "missing", "drift", "undecided")}, indent=1))
