"""Contracts of the errors (deser/src/error.rs), of Atom::name and the default answers of a sink."""
from vlib.weave import *
from vlib.expand import *
from specs.core import spec, item_text
from specs.driver_de import HEAD, GLOBAL

UNCONTRACTED = []
THEOREMS = {}
FNS = {}


def F(k, ens, **kw):
    FNS[k] = C(props=["C33"], ens=ens, entry="broadcast use {core_std, ax_text_string, ax_text_str, ax_text_cow};", **kw)


F("Error::new", ["is_error(r, kind, text_of(msg))"])
F("Error::with_source", ["r.vf_kind() == self.vf_kind()", "r.vf_msg() == self.vf_msg()", "r.vf_source() == Some(dyn_err(source))"])
F("Error::kind", ["r == self.vf_kind()"])
F("Error::vf_display", ["r is Ok ==> final(f).out() =~= old(f).out() + kind_text(self.vf_kind()) + \": \"@ + self.vf_msg()"])
F("Error::source", ["match r { Some(x) => self.vf_source() == Some(*x), None => self.vf_source() is None }"])
F("Atom::name", ["r@ == atom_name(*self)"])
F("Atom::unexpected_error", ["is_error(r, ErrorKind::Unexpected, unexpected_text(atom_name(*self), expectation@))"])
F("fail_unexpected", ["refused(r, got@, expecting@)"])
F("new_missing_field_error", ["is_error(r, ErrorKind::MissingField, \"Missing field '\"@ + name@ + \"'\"@)"])
SINK = {
    "atom": ["refused(r, atom_name(atom), old(self).expects())"],
    "unexpected_atom": ["refused(r, atom_name(atom), old(self).expects())"],
    "map": ["refused(r, \"map\"@, old(self).expects())"],
    "seq": ["refused(r, \"sequence\"@, old(self).expects())"],
    "next_key": ["r is Ok && r->Ok_0.ignores()"],
    "next_value": ["r is Ok && r->Ok_0.ignores()"],
    "value_for_key": ["r is Ok && r->Ok_0 is None"],
    "finish": ["r is Ok"],
}
for n, e in SINK.items():
    F("VfSink::" + n, e)
F("VfNamed::expecting", ["cow_str(r) == match self.dsc().name_of() { Some(x) => x, None => \"compatible type\"@ }"])


def text(t, report):
    """R-text: format_args!("a{0}b{1:?}", x, y) is the concatenation of its parts:
    the literals, and what each argument is shown as; format(..) is that String,
    write_fmt(..) writes it."""
    n = 0
    while True:
        m = re.search(r"format_args!\(", t)
        if not m:
            break
        e = balanced(t, m.end() - 1, "(", ")")
        body = t[m.end():e - 1].strip()
        lit = re.match(r'"((?:[^"\\]|\\.)*)"', body)
        if not lit:
            raise Drift("format_args! without a literal")
        args, depth, cur = [], 0, ""
        for ch in body[lit.end():].strip().lstrip(","):
            depth += ch in "([{"
            depth -= ch in ")]}"
            if ch == "," and not depth:
                args.append(cur.strip())
                cur = ""
            else:
                cur += ch
        args += [cur.strip()] if cur.strip() else []
        parts, pos, s = [], 0, lit.group(1)
        for p in re.finditer(r"\{\{|\}\}|\{(\d+)(:\?)?\}|\{[^}]*\}", s):
            if p.group(0) in ("{{", "}}"):
                raise Drift("format_args! with escaped braces")
            if p.group(1) is None:
                raise Drift("format_args! part %s" % p.group(0))
            if s[pos:p.start()]:
                parts.append('vf_lit("%s")' % s[pos:p.start()])
            parts.append("(%s).vf_%s()" % (args[int(p.group(1))], "debug" if p.group(2) else "show"))
            pos = p.end()
        if s[pos:] or not parts:
            parts.append('vf_lit("%s")' % s[pos:])
        x = parts[0]
        for p in parts[1:]:
            x = "vf_cat(%s, %s)" % (x, p)
        t = t[:m.start()] + x + t[e:]
        n += 1
    report["rewrites"].append("R-text x%d" % n)
    t = re.sub(r"::alloc::fmt::format\(", "(", t)
    t = re.sub(r"\.write_fmt\(", ".vf_write(", t)
    while True:
        m = re.search(r"::alloc::__export::must_use\(", t)
        if not m:
            return t
        e = balanced(t, m.end() - 1, "(", ")")
        t = t[:m.start()] + t[m.end() - 1:e] + t[e:]


def fn_text(src, name):
    f = [f for f in src.fns if f["name"] == name and f["parent_fn"] < 0]
    if len(f) != 1 or not f[0]["body"]:
        raise Drift("fn %s not found" % name)
    return src.text(f[0]["span"])


def build(report):
    t = expanded("deser", ("derive",))
    er = parse_text(module(t, ["error"]), "deser::error")
    out = []
    for i in er.items:
        x = er.text(i["span"])
        h = " ".join(x.split("{")[0].split())
        if i["in_fn"] >= 0 or i["kind"] == "use":
            continue
        if i["kind"] == "enum":
            out.append("#[derive(Copy, Clone, PartialEq, Eq)]\n" + x)
        elif i["kind"] == "struct" or h == "impl Error":
            out.append(x)
        elif re.search(r"(?:fmt::)Display for Error$", h) and "::core::" not in h:
            out.append(re.sub(r"^impl [^{]*\{", "impl Error {", x).replace("fn fmt(", "fn vf_display("))
        elif re.search(r"\bError for Error$", h):
            out.append(re.sub(r"^impl [^{]*\{", "impl Error {", x))
        else:
            report["dropped"].append(h[:60])
    x = "\n".join(out)
    x = re.sub(r"Box<dyn (?:std::error::)?(?:Error|StdError)(?: \+ (?:Send|Sync|'static))*>", "Box<DynErr>", x)
    x = re.sub(r"&\(?dyn (?:std::error::)?Error(?: \+ (?:Send|Sync|'static))*\)?", "&DynErr", x)
    x = re.sub(r"\bstd::error::Error((?:\s*\+\s*(?:Send|Sync|'static))*)", "StdError", x)
    x = re.sub(r"Box::new\((\w+)\)", r"vf_dyn_err(\1)", x)
    x = re.sub(r"(?<!\.)\b(\w+)\.as_ref\(\)(?: as _)?", r"vf_dyn_ref(\1)", x)
    x = re.sub(r"\|(\w+)\|\s*(vf_dyn_ref\(\w+\))", r"|\1: &Box<DynErr>| -> &DynErr /*closure \1*/ { \2 }", x)
    x = re.sub(r"\b(\w+)\.into\(\)", r"vf_into(\1)", x)
    x = re.sub(r"&(?:'\w+ )?mut fmt::Formatter<'_>", "&mut Fmt", x)
    x = re.sub(r"\bfmt::Result\b", "Result<(), FmtError>", x)
    report["rewrites"] += ["R-dyn dyn Error + .. is DynErr", "R-unsize Box::new(source) and as_ref() as _", "R-into msg.into()", "R-inherent Display and Error of Error", "R-opaque Formatter"]
    ev = parse_text(module(t, ["event"]), "deser::event")
    e = [i for i in ev.items if i["kind"] == "enum" and i["name"] in ("Atom", "Event") and i["in_fn"] < 0]
    x += "\n" + "\n".join(ev.text(i["span"]) for i in e)
    at = [f for f in ev.fns if f["key"] in ("Atom::name", "Atom::unexpected_error")]
    if len(at) != 2:
        raise Drift("Atom::name, unexpected_error")
    x += "\nimpl<'a> Atom<'a> {\n%s\n}\n" % "\n".join(ev.text(f["span"]) for f in at)
    de = parse_text(without_modules(module(t, ["de"])), "deser::de")
    x += fn_text(de, "fail_unexpected") + "\n"
    tr = [i for i in de.items if i["kind"] == "trait" and i["name"] == "Sink"]
    if len(tr) != 1:
        raise Drift("trait Sink")
    tr = parse_text(de.text(tr[0]["span"]), "trait Sink")
    if set(f["name"] for f in tr.fns) != set(SINK) | {"descriptor", "expecting"}:
        raise Drift("methods of Sink")
    report["rewrites"].append("R-default the default methods of Sink on a struct that has only `expecting`, the default of `expecting` on one that has only `descriptor`")
    x += "impl VfSink {\n%s\n}\nimpl VfNamed {\n%s\n}\n" % ("\n".join(fn_text(tr, n) for n in SINK), fn_text(tr, "expecting"))
    n = 0
    for where in (module(module(t, ["de"]), ["impls"]), module(expanded("deser-path"), ["de"])):
        s = parse_text(where, "sinks")
        for f in s.fns:
            if f["name"] == "expecting" and f["body"]:
                x += "pub struct VfFwd%d { pub sink: VfInner }\nimpl VfFwd%d {\n%s\n}\n" % (n, n, s.text(f["span"]).replace("std::borrow::Cow", "Cow"))
                F("VfFwd%d::expecting" % n, ["cow_str(r) == self.sink.expects()"])
                n += 1
    if n < 2:
        raise Drift("sinks that hand expecting on")
    d = parse_text(module(t, ["__derive"]), "deser::__derive")
    x += re.sub(r"\bsuper::", "", fn_text(d, "new_missing_field_error"))
    x = text(x, report)
    x = re.sub(r"\bcrate::(?:\w+::)*(?=[A-Z])", "", x)
    x = re.sub(r"(?m)^\s*#\[doc[^\]]*\]", "", x)
    src = desugar_mut_self(parse_text(x, "deser (macro expanded): error, event, de"), report)
    rule_vis(src, report)
    weave_all(src, FNS, report, [], UNCONTRACTED)
    return HEAD + "verus! {\n" + GLOBAL + spec("core_std.rs") + spec("errors.rs") + "\n// ==== extracted ====\n" + re.sub(r"-> &DynErr /\*closure (\w+)\*/", r"-> (vf_r: &DynErr) ensures *vf_r == **\1", src.render(0, len(src.data))) + "\n} // verus!\nfn main() {}\n"


if __name__ == "__main__":
    rep = new_report()
    open("/tmp/w/errors.rs", "w").write(build(rep))
    print(json.dumps({k: rep[k] for k in ("uncontracted", "missing", "drift", "undecided", "dropped")}, indent=1))
