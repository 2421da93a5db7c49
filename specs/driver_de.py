"""Contracts of the deserialization driver (deser/src/de/driver.rs)."""
from vlib.weave import *
from vlib.expand import *
from specs.core import types, spec

SRC = "deser (macro expanded): de::driver"
UNCONTRACTED = []
THEOREMS = {"C18": ["lemma_value"]}
FNS = {}
D0, D1 = "old(self).dv()", "final(self).dv()"


def F(k, **kw):
    kw.setdefault("props", ["C18"])
    FNS[k] = C(**kw)


K = "DeserializeDriver::"
# the driver itself leaves the extension values alone (C31)
NEW, KEEP = ("C31", "state.extensions", ["r.state.extensions.fresh()"]), ("C31", "state.extensions", ["final(self).state.extensions == old(self).state.extensions"])
F(K + "new", ens=["r.dv().stack.len() == 0 && r.dv().descs.len() == 0", "r.dv().cur is Some", "T::feeds(r.dv().cur->Some_0, *old(out), *final(out))"], tag=NEW)
F(K + "from_sink", ens=["r.dv().stack.len() == 0 && r.dv().descs.len() == 0", "r.dv().cur == Some(sink)"], tag=NEW)
F(K + "state", ens=["*r == self.state"])
F(K + "emit", req=["dv_ok(%s)" % D0, "call_requires(E::into, (event,))", "forall|e: Event| call_ensures(E::into, (event,), e) ==> expected(%s, ev(e))" % D0],
  ens=["exists|e: Event| #[trigger] call_ensures(E::into, (event,), e) && step(%s, ev(e), r, %s)" % (D0, D1), "r is Ok ==> dv_ok(%s)" % D1], tag=KEEP)
F(K + "update_current_sink", req=["dv_ok(%s)" % D0],
  ens=["match r { Ok(_) => final(self).current_sink is Some && opened(%s, final(self).current_sink->Some_0, %s), Err(e) => refused(%s, e, %s) }" % (D0, D1, D0, D1)],
  tag=[KEEP, ("C34", "let_go(", ["let_go(r, %s)" % D1, "owned(%s) && let_go(Ok(()), %s)" % (D1, D1)])])
F(K + "_emit", req=["dv_ok(%s)" % D0, "expected(%s, ev(event))" % D0], ens=["step(%s, ev(event), r, %s)" % (D0, D1), "r is Ok ==> dv_ok(%s)" % D1],
  tag=[KEEP, ("C34", "let_go(", ["ev(event) is MapEnd || ev(event) is SeqEnd ==> let_go(r, %s)" % D1, "owned(%s) && let_go(Ok(()), %s)" % (D1, D1)])])
F(K + "vf_drop", props=["C34"], ens=["final(vf_log).log() == old(vf_log).log() + inside_out(%s)" % D0], noret=True, entry_raw="let ghost l0 = vf_log.log(); let ghost d0 = self.dv();",
  loops=[L(["vf_log.log() + unwind(self.sink_stack@) == l0 + inside_out(d0)", "self.current_sink is None"], ens=["self.sink_stack@.len() == 0"], dec="self.sink_stack@.len()")])

HEAD = '''#![allow(unused, dead_code, non_snake_case, non_camel_case_types, mismatched_lifetime_syntaxes)]
use vstd::prelude::*;
use std::borrow::Cow;
'''
GLOBAL = "global size_of usize == 8;\n"


def unmanual(t, report):
    t = re.sub(r"ManuallyDrop<", "VfId<", t)
    n = 0
    while True:
        m = re.search(r"\bVfId<", t)
        if not m:
            break
        e = balanced(t, m.end() - 1, "<", ">")
        t = t[:m.start()] + t[m.end():e - 1] + t[e:]
        n += 1
    while True:
        m = re.search(r"\bManuallyDrop::new\(", t)
        if not m:
            break
        e = balanced(t, m.end() - 1, "(", ")")
        t = t[:m.start()] + t[m.end():e - 1] + t[e:]
    report["rewrites"].append("R-manual x%d: ManuallyDrop<T> is T (see R-drop)" % n)
    return t


def drop_drops(text, report, name):
    s = parse_text(text, name)
    d = s.data
    for i in sorted([i for i in s.items if i["kind"] == "impl" and re.search(r"\bDrop for\b", s.text(i["span"])[:200])], key=lambda i: -i["span"][0]):
        report["dropped"].append("impl Drop: " + " ".join(s.text(i["span"])[:60].split()))
        d = d[:i["span"][0]] + d[i["span"][1]:]
    return d.decode()


def manual(text):
    """The fields that are ManuallyDrop."""
    return set(re.findall(r"(\w+)\s*:\s*(?:std::mem::|core::mem::)?ManuallyDrop<", text))


def drop_fn(text, held, report, name):
    """R-drop: `impl Drop for X` is an inherent function that keeps a log: what an expression
    statement, `let _`, `drop(..)` or the end of a loop body drops is put there, and in the end the
    fields that are not ManuallyDrop in the order of their declaration."""
    s = parse_text(text, name)
    d = [i for i in s.items if i["kind"] == "impl" and re.search(r"\bDrop for\b", s.text(i["span"])[:200])]
    if len(d) != 1:
        raise Drift("R-drop: %d impls of Drop" % len(d))
    f = [f for f in s.fns if d[0]["span"][0] <= f["span"][0] < d[0]["span"][1]]
    b = s.text(f[0]["body"])[1:-1]
    head = s.text(d[0]["span"])
    head = re.sub(r"\bDrop for\b\s*", "", head[:head.index("{")])
    ty = re.search(r"(\w+)(?:<[^>]*>)?\s*$", head).group(1)
    st = [i for i in s.items if i["kind"] == "struct" and i["name"] == ty]
    fields = re.findall(r"(?m)^\s*(?:pub(?:\([^)]*\))? )?(\w+)\s*:", s.text(st[0]["span"]))
    b = re.sub(r"\bunsafe\s*\{", "{", b)
    e = r"self(?:\.\w+)+"
    while True:
        m = re.search(r"\bwhile let Some\((\w+)\) = (%s\.pop\(\))\s*\{" % e, b)
        if not m:
            break
        z = balanced(b, m.end() - 1)
        b = b[:m.start()] + "loop { match %s { Some(%s) => {%s vf_drop(%s, vf_log); } None => { break; } } };" % (m.group(2), m.group(1), b[m.end():z - 1], m.group(1)) + b[z:]
    b = re.sub(r"(?m)(^|[;{}])(\s*)(%s\.(?:take|pop)\(\));" % e, r"\1\2vf_drop(\3, vf_log);", b)
    b = re.sub(r"\blet _ = (%s\.(?:take|pop)\(\));" % e, r"vf_drop(\1, vf_log);", b)
    b = re.sub(r"(?<![\w:])(?:(?:std|core)::mem::)?drop\((%s\.(?:take|pop)\(\))\)" % e, r"vf_drop(\1, vf_log)", b)
    b = re.sub(r"(?m)(^|[;{}])(\s*)(%s) = None;" % e, r"\1\2vf_drop(\3.take(), vf_log);", b)
    b = re.sub(r"\b(?:(?:std|core)::mem::)?ManuallyDrop::drop\(&mut (%s)\)" % e, r"vf_drop_rest(&mut \1, vf_log)", b)
    b = re.sub(r"(?m)(^|[;{}])(\s*)(%s)\.clear\(\);" % e, r"\1\2vf_drop_rest(&mut \3, vf_log);", b)
    if re.search(r"\blet\b|\bdrop\(|\btruncate|\bdrain", b):
        raise Drift("R-drop: a shape that is not known")
    b += "".join("\nvf_drop_rest(&mut self.%s, vf_log);" % x for x in fields if x not in held)
    report["rewrites"].append("R-drop the Drop impl of %s is a function that logs what is dropped; fields %s are ManuallyDrop" % (ty, sorted(held)))
    raw = s.data
    return (raw[:d[0]["span"][0]] + ("%s {\nfn vf_drop(&mut self, vf_log: &mut VfLog) {%s}\n}" % (head, b)).encode() + raw[d[0]["span"][1]:]).decode()


def transmutes(t, table, report):
    """R-extend: transmute::<A, B>(x) where A and B differ in lifetimes only is an identity function of that type."""
    while True:
        m = re.search(r"(?:std|core)::mem::transmute::<", t)
        if not m:
            return t
        e = balanced(t, m.end() - 1, "<", ">")
        args = " ".join(t[m.end():e - 1].split())
        strip = lambda x: re.sub(r"<'_>|<'static>|'_ |'static ", "", x).strip()
        a = strip(args)
        for pat, fn in table:
            if a == "%s, %s" % (pat, pat):
                t = t[:m.start()] + fn + t[e:]
                report["rewrites"].append("R-extend %s" % args)
                break
        else:
            raise Drift("transmute of an unknown type: " + args)


def build(report):
    t = expanded("deser")
    de = module(t, ["de"])
    body = module(de, ["driver"])
    body = macros(body, report, "deser::de::driver")
    body = re.sub(r"(?m)^\s*use [^;]*;", "", body)
    body = re.sub(r"macro_rules! \w+ \{", "macro_rules! vf_m {", body)
    while "macro_rules! vf_m {" in body:
        i = body.index("macro_rules! vf_m {")
        body = body[:i] + body[balanced(body, body.index("{", i)):]
    held = manual(body)
    body = unmanual(body, report)
    body = transmutes(body, [("SinkHandle", "vf_extend"), ("&dyn Descriptor", "vf_extend_desc")], report)
    try:
        body = drop_fn(body, held, report, "deser::de::driver")
    except Drift as e:
        body = drop_drops(body, report, "deser::de::driver")
        report["drift"]["DeserializeDriver::vf_drop"] = str(e)
    top = parse_text(without_modules(de), "deser::de")
    st = [i for i in top.items if i["kind"] == "struct" and i["name"] == "DeserializerState"]
    if len(st) != 1:
        raise Drift("DeserializerState not found")
    pre = spec("sink_prelude.rs")
    a = pre.index("#[verifier::external_body]\npub struct DeserializerState")
    pre = pre[:a] + top.text(st[0]["span"]).replace("    extensions", "    pub extensions").replace("    descriptor_stack", "    pub descriptor_stack") + pre[pre.index("\n", pre.index("pub struct DeserializerState")):]
    i = pre.index("// ---- owned sinks")
    pre = pre[:i] + pre[pre.index("// ---- helpers"):]
    pre = pre.replace("pub fn descriptor(&self) -> &dyn Descriptor {", "pub fn descriptor(&self) -> (r: &dyn Descriptor) ensures r == desc_of(*self) {")
    pre = re.sub(r"pub uninterp spec fn (?:did|gave)\(.*\n", "", pre)
    pre = re.sub(r"ensures (did|gave)\(", r"ensures \1(state.descriptor_stack@, ", pre)
    tr = "pub trait Deserialize: Sized { #[verifier::prophetic] spec fn feeds(h: SinkHandle<'_>, init: Option<Self>, fin: Option<Self>) -> bool;\n fn deserialize_into(out: &mut Option<Self>) -> (r: SinkHandle<'_>) ensures Self::feeds(r, *old(out), *final(out)); }\npub uninterp spec fn desc_of(h: SinkHandle<'_>) -> &'static dyn Descriptor;\n"
    src = parse_text(body, "deser::de::driver")
    rule_vis(src, report)
    weave_all(src, FNS, report, [], [])
    return HEAD + "verus! {\n" + GLOBAL + types(report) + pre + tr + spec("driver_de.rs") + spec("drops.rs") + spec("driver_de_lemmas.rs") + "\n// ==== extracted ====\n" + src.render(0, len(src.data)) + "\n} // verus!\nfn main() {}\n"


if __name__ == "__main__":
    rep = new_report()
    open("/tmp/w/driver_de.rs", "w").write(build(rep))
    print(json.dumps({k: rep[k] for k in ("uncontracted", "missing", "drift", "undecided")}, indent=1))
