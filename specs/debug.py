"""Contracts of deser-debug: what a value is shown as."""
from vlib.weave import *
from vlib.expand import *
from specs.core import types, spec
from specs.driver_de import HEAD, GLOBAL
from specs.driver_ser import while_let

UNCONTRACTED = []
FNS = {}


def F(k, **kw):
    FNS[k] = C(props=["C28"], **kw)


SV = "show_val(toks(tokens@))"
KEPT = ["%(b)s.ok != f.failed()", "rest@.len() < tokens@.len()", "rest@ == tokens@.skip(tokens@.len() - rest@.len())"]


def walk(b, show, close):
    """A loop over the parts of a map or list: what is shown so far and what is to come are the whole."""
    kept = [k % dict(b=b) for k in KEPT]
    key = b == "map"
    return L(exc=["%s is Some" % show, "%s->Some_0.1 == fin" % show, "%s.ok ==> f.log() + %s->Some_0.0 =~= f0 + total" % (b, show)] + (["map.ok ==> map.has_key == !is_key"] if key else []),
             inv=kept, ens=["toks(rest@) == fin", "%s.ok ==> f.log() + seq![Sh::%s] =~= f0 + total" % (b, close)] + (["map.ok ==> !map.has_key"] if key else []),
             dec="rest@.len()",
             start="let tr = toks(rest@); %s lemma_suffix(tr); lemma_toks_skip(rest@, 1); if show_val(tr) is Some { lemma_toks_skip(rest@, rest@.len() - show_val(tr)->Some_0.1.len()); }" % ("lemma_show_members(tr, is_key);" if key else "lemma_show_items(tr);"))


BYTES = L(["vf_i <= vf_s@.len()", "!f.failed()", "f.log() =~= f0 + chs(seq!['b', '\"'] + bytes_text(vf_s@.take(vf_i as int)))"], dec="vf_s@.len() - vf_i",
          start="lemma_byte(vf_s@, vf_i as int); lemma_bytes_step(vf_s@, vf_i as int);",
          before="assert(vf_s@.take(0) =~= seq![]);", after="assert(vf_s@.take(vf_i as int) =~= vf_s@);")
F("dump", req=["%s is Some" % SV, "!old(f).failed()"],
  ens=["r is Ok != final(f).failed()",
       "r matches Ok(rest) ==> toks(rest@) == %s->Some_0.1 && rest@.len() < tokens@.len() && rest@ == tokens@.skip(tokens@.len() - rest@.len()) && final(f).log() == old(f).log() + %s->Some_0.0" % (SV, SV)],
  dec="tokens@.len(), 0int",
  entry="lemma_suffix(toks(tokens@)); lemma_toks_skip(tokens@, 1); lemma_show_val(toks(tokens@)); lemma_lits();",
  entry_raw="hide(show_val); hide(show_members); hide(show_items); hide(bytes_text); hide(byte_text); broadcast use {core_std, ax_str}; let ghost f0 = f.log(); let ghost total = %s->Some_0.0; let ghost fin = %s->Some_0.1;" % (SV, SV),
  loops=[BYTES, walk("map", "show_members(toks(rest@), is_key)", "MapClose"), walk("list", "show_items(toks(rest@))", "SeqClose")])
F("Helper::fmt", req=["helper_ok(*old(self))", "!old(f).failed()"],
  ens=["final(self).0 == old(self).0", "r is Ok != final(f).failed()",
       "r is Ok ==> final(f).log() == old(f).log() + show_val(toks(old(self).0@))->Some_0.0 && final(self).1 as int == old(self).0@.len() - (show_val(toks(old(self).0@))->Some_0.1).len()",
       "r is Err ==> final(self).1 == old(self).1"],
  dec="old(self).0@.len(), 1int")
for k in ("ToDebug::vf_display", "ToDebug::vf_debug"):
    F(k, req=["show_val(toks(self.events@)) is Some", "!old(f).failed()"],
      ens=["r is Ok != final(f).failed()", "r is Ok ==> final(f).log() == old(f).log() + show_val(toks(self.events@))->Some_0.0"])
F("ToDebug::new", req=["trace(*value) is Some"], ens=["toks(r.events@) == trace(*value)->0", "show_val(toks(r.events@)) is Some", "show_val(toks(r.events@))->Some_0.1.len() == 0"],
  entry="ax_trace(*value); lemma_shown(trace(*value)->0);",
  loops=[L(["driver.left() is Some", "toks(events@) + driver.left()->0 =~= trace(*value)->0"], ens=["driver.left()->0.len() == 0"], dec="driver.left()->0.len()")])


def rewrite(x, report):
    n = {}

    def sub(rule, pat, rep, s):
        s, k = re.subn(pat, rep, s)
        n[rule] = n.get(rule, 0) + k
        return s
    x = re.sub(r"(?m)^\s*//.*$", "", x)
    x = re.sub(r"(?m)^\s*(#\[[^\]]*\]\s*)?use [^;]*;", "", x)
    x = re.sub(r"(?m)^\s*(#!\[feature\(prelude_import\)\]|extern crate std;)", "", x)
    x = sub("R-inherent", r"impl fmt::Display for ToDebug \{(\s*)fn fmt\(", r"impl ToDebug {\1fn vf_display(", x)
    x = sub("R-inherent", r"impl fmt::Debug for ToDebug \{(\s*)fn fmt\(", r"impl ToDebug {\1fn vf_debug(", x)
    x = sub("R-inherent", r"impl<'a> fmt::Debug for Helper<'a> \{", "impl<'a> Helper<'a> {", x)
    x = sub("R-cell", r"\bAtomicUsize::default\(\)", "0", x)
    x = sub("R-cell", r"\bAtomicUsize\b", "usize", x)
    x = sub("R-cell", r"\b(\w+)\.1\.load\(atomic::Ordering::\w+\)", r"\1.1", x)
    x = re.sub(r"\b(\w+)\.1\s*\.store\((.*?),\s*atomic::Ordering::\w+\);", r"\1.1 = \2;", x)
    x = re.sub(r"(impl<'a> Helper<'a> \{\s*fn fmt\()&self", r"\1&mut self", x)
    x = sub("R-cell", r"\blet (\w+) = Helper\(", r"let mut \1 = Helper(", x)
    x = sub("R-opaque", r"&(?:'\w+ )?mut fmt::Formatter<'_>", "&mut Fmt", x)
    x = re.sub(r"\bfmt::Result\b", "Result<(), FmtError>", x)
    x = re.sub(r"\bfmt::Error\b", "FmtError", x)
    x = sub("R-dyn", r"&dyn Serialize\b", "&DynSer", x)
    x = re.sub(r"fmt::Debug::fmt\(&Helper\(&self\.events,", "Helper::fmt(&mut Helper(self.events.as_slice(),", x)
    x = re.sub(r"\bfmt::Debug::fmt\(", "vf_dbg(", x)
    x = re.sub(r'\bf\.debug_struct\("[^"]*"\)\.finish\(\)', "vf_other(f)", x)
    # R-builder
    for kind, new, ends in (("map", "vf_map", "vf_map_end"), ("list", "vf_list", "vf_list_end")):
        m = re.search(r"let mut (\w+) = f\.debug_%s\(\);" % kind, x)
        if not m:
            raise Drift("no builder of kind " + kind)
        v = m.group(1)
        x = sub("R-builder", r"let mut %s = f\.debug_%s\(\);" % (v, kind), "let mut %s = %s(f);" % (v, new), x)
        for e in ("key", "value", "entry"):
            x = sub("R-builder", r"\b%s\.%s\(&(\w+)\)" % (v, e), r"vf_%s(&mut %s, f, &mut \1)" % (e, v), x)
        x = sub("R-builder", r"\b%s\.finish\(\)" % v, "%s(%s, f)" % (ends, v), x)
    # write!

    def write(m):
        t, arg = m.group(1), (m.group(2) or "").lstrip(",").strip()
        hole = re.search(r"\{0(:02x)?\}", t)
        n["R-write"] = n.get("R-write", 0) + 1
        if not hole:
            if "{" in t or arg:
                raise Drift("a format string of unknown shape: " + t)
            return 'vf_write(f, "%s")' % t
        if hole.group(1):
            arg = "VfHex(%s)" % arg
        a, b = t[:hole.start()], t[hole.end():]
        if "{" in a + b:
            raise Drift("a format string of unknown shape: " + t)
        return 'vf_write1(f, "%s", %s, "%s")' % (a, arg, b)
    x = re.sub(r'\bf\.write_fmt\(format_args!\("((?:[^"\\]|\\.)*)"((?:,[^()]*)?)\)\)', write, x)
    x = sub("R-write", r"\bf\.write_str\(", "vf_write(f, ", x)
    x = sub("R-write", r"\bf\.write_char\(((?:[^()]|\([^()]*\))*)\)", r'vf_write1(f, "", \1, "")', x)
    x = sub("R-strcmp", r'\b(\w+) != "(\w+)"', r'!vf_str_eq(\1.as_str(), "\2")', x)
    x = sub("R-contains", r"\((\w+)\.\.(\w+)\)\.contains\(&(\w+)\)", r"(\1 <= \3 && \3 < \2)", x)
    x = sub("R-slice", r"&rest\[([^\]]*?)\.\.\]", r"vf_tail(rest, \1)", x)
    x = sub("R-slice", r"\btokens\.split_first\(\)", "vf_split_first(tokens)", x)
    x = sub("R-mapor", r"rest\.get\(0\)\.map_or\(false,\s*\|x\|\s*(match x\.0 \{[^{}]*\})\)", r"(match rest.get(0) { Some(x) => \1, None => false })", x)
    x = sub("R-for", r"for &(\w+) in &(\w+)\[\.\.\] \{", r"let vf_s: &[u8] = \2; let mut vf_i: usize = 0; while vf_i < vf_s.len() { let \1 = vf_s[vf_i]; vf_i += 1;", x)
    x = sub("R-optmap", r"descriptor\.name\(\)\.map\(\|x\| x\.to_string\(\)\)", "(match descriptor.name() { Some(x) => Some(x.to_string()), None => None })", x)
    report["rewrites"] += ["%s x%d in deser_debug" % kv for kv in sorted(n.items())]
    return x


def build(report):
    t = expanded("deser-debug")
    x = rewrite(macros(t, report, "deser_debug"), report)
    x = x.replace("::core::panicking::unreachable_default_msg()", "vf_panic()")
    x = while_let_tuple(x, report)
    src = parse_text(x, "deser_debug (macro expanded)")
    rule_vis(src, report)
    weave_all(src, FNS, report, [rule_common], UNCONTRACTED)
    return HEAD + "verus! {\n" + GLOBAL + types(report) + spec("events.rs") + spec("debug.rs") + "\n// ==== extracted ====\n" + src.render(0, len(src.data)) + "\n} // verus!\nfn main() {}\n"


def while_let_tuple(body, report):
    m = re.search(r"\bwhile let (Some\(\([\w, ]+\)\)) =\s*([^{]*?) \{", body)
    if not m:
        return body
    e = balanced(body, m.end() - 1)
    report["rewrites"].append("R-whilelet " + m.group(0))
    return body[:m.start()] + "loop { match " + m.group(2) + " { " + m.group(1) + " => {" + body[m.end():e] + " _ => { break; } } }" + body[e:]


if __name__ == "__main__":
    rep = new_report()
    open("/tmp/w/debug.rs", "w").write(build(rep))
    print(json.dumps({k: rep[k] for k in ("uncontracted", "missing", "drift", "undecided", "dropped")}))
