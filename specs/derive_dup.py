"""The derives refuse a key that is claimed twice (deser-derive/src/de.rs): the statements
of derive_struct and derive_enum that collect the keys and return the error."""
from vlib.weave import *
from vlib.expand import *
from specs.core import spec
from specs.driver_de import HEAD, GLOBAL

SRC = "deser-derive/src/de.rs"
UNCONTRACTED = []
THEOREMS = {}
FNS = {}
OF = {"derive_struct": ("vf_fields", "FieldAttrs", "C24"), "derive_enum": ("vf_variants", "EnumVariantAttrs", "C26")}
for g, (n, ty, pid) in OF.items():
    here = "claimed(attrs@.take(vf_k as int), *container_attrs)"
    item = "attrs@[vf_k as int]"
    note = "first_duplicate_name is Some <==> !seen_names.log().no_duplicates()"
    at = "upto(%s, %s.key(*container_attrs), %s.also(), %s)"
    FNS[n] = C(props=[pid], also=["C23"], req=["sink_fieldname@.len() == attrs@.len()"] if n == "vf_fields" else [],
               ens=["r is Ok <==> claimed(attrs@, *container_attrs).no_duplicates()"], entry="broadcast use core_std, dups;",
               loops=[L(["vf_k <= attrs@.len()"] + (["sink_fieldname@.len() == attrs@.len()"] if n == "vf_fields" else []) + ["seen_names.log() == " + here, note],
                        dec="attrs@.len() - vf_k", start="lemma_own(attrs@, vf_k as int, *container_attrs); lemma_ends(%s, %s.key(*container_attrs), %s.also());" % (here, item, item),
                        before="assert(attrs@.take(0) =~= seq![]);", after="assert(attrs@.take(attrs@.len() as int) =~= attrs@);"),
                      L(["vf_j <= vf_al@.len()", "texts(vf_al@) == x.also()", "seen_names.log() == " + at % (here, "x", "x", "vf_j as int"), note], dec="vf_al@.len() - vf_j",
                        start="assert(x.also()[vf_j as int] == vf_al@[vf_j as int]@); lemma_upto(%s, x.key(*container_attrs), x.also(), vf_j as int);" % here,
                        after="assert(vf_al@.len() == x.also().len());")])


def body_of(src, name):
    f = src.fn(name)
    return src.text(f["body"])[1:-1]


def stmts(t):
    """The top-level statements of a body."""
    out, i = [], 0
    while i < len(t):
        while i < len(t) and t[i].isspace():
            i += 1
        if i >= len(t):
            break
        a, depth = i, 0
        while i < len(t):
            ch = t[i]
            if t.startswith("//", i):
                i = t.index("\n", i)
            elif ch == '"':
                i += 1
                while t[i] != '"':
                    i += 2 if t[i] == "\\" else 1
            elif ch == "'" and re.match(r"'(\\.|[^'\\])'", t[i:]):
                i += len(re.match(r"'(\\.|[^'\\])'", t[i:]).group(0)) - 1
            elif ch in "([{":
                depth += 1
            elif ch in ")]}":
                depth -= 1
                if ch == "}" and not depth and re.match(r"(if|for|while|loop|match|unsafe)\b", t[a:]) and not re.match(r"\s*(else\b|[.?])", t[i + 1:]):
                    i += 1
                    break
            elif ch == ";" and not depth:
                i += 1
                break
            i += 1
        out.append(t[a:i])
    return out


def slice_of(t, name):
    """From the sets and flags the keys are collected with to the error."""
    ss = stmts(t)
    m = [k for k, x in enumerate(ss) if ".aliases()" in x]
    if len(m) != 1:
        raise Drift("%s: the statement that collects the keys" % name)
    a = b = m[0]
    while a > 0 and re.match(r"let mut \w+(: [^=]*)? = [\w:<>]+(\(\))?;$", " ".join(ss[a - 1].split())):
        a -= 1
    while b + 1 < len(ss) and not re.search(r"\breturn Err\(|\bErr\(", ss[b]):
        b += 1
    if b - m[0] > 3 or not re.search(r"\bErr\(", ss[b]):
        raise Drift("%s: the error for a key claimed twice" % name)
    return "\n".join(ss[a:b + 1]), m[0] - a


def chain(t, report):
    """R-filter-map: `let V = attrs.iter()[.zip(W.iter())].map|filter_map(|P| { B }).collect::<..>();` is the
    loop that pushes each B (or what it is Some of); `return None` in B goes on to the next item.
    R-for-slice: `for P in X.aliases() { B }` is the loop over its indices."""
    m = re.search(r"let (\w+) = attrs\s*\.iter\(\)\s*(?:\.zip\((\w+)\.iter\(\)\)\s*)?\.(filter_map|map)\(\|([^|]*)\|\s*\{", t)
    if m:
        e = balanced(t, m.end() - 1)
        rest = re.match(r"\s*\)\s*\.collect::<[^;]*>\(\);", t[e:])
        if not rest:
            raise Drift("R-filter-map: the end of the chain")
        body, v, w = t[m.end():e - 1], m.group(1), m.group(2)
        ps = [x.strip() for x in m.group(4).strip("() ").split(",")]
        if len(ps) != (2 if w else 1) or not all(re.match(r"\w+$", p) for p in ps) or ps[0] != "x":
            raise Drift("R-filter-map: the parameters are %s" % ps)
        bind = "let %s = &attrs[vf_k]; " % ps[0] + ("let %s = &%s[vf_k]; " % (ps[1], w) if w else "")
        if m.group(3) == "filter_map":
            body = re.sub(r"\breturn None;", "vf_k += 1; continue;", body)
            put = "match vf_r { Some(vf_y) => { %s.push(vf_y); } None => {} }" % v
        else:
            put = "%s.push(vf_r);" % v
        if re.search(r"\breturn\b", body):
            raise Drift("R-filter-map: return in the body")
        cond = "vf_k < attrs.len()" + (" && vf_k < %s.len()" % w if w else "")
        t = t[:m.start()] + "let mut %s: Vec<Tokens> = Vec::new(); let mut vf_k: usize = 0; while %s { %s let vf_r = {%s}; %s vf_k += 1; }" % (v, cond, bind, body, put) + t[e + rest.end():]
        report["rewrites"].append("R-filter-map")
    f = re.search(r"for (\w+) in (\w+)\.aliases\(\)(?:\.iter\(\))?\s*\{", t)
    if f:
        e = balanced(t, f.end() - 1)
        t = t[:f.start()] + "let vf_al = %s.aliases(); let mut vf_j: usize = 0; while vf_j < vf_al.len() { let %s = &vf_al[vf_j]; %s vf_j += 1; }" % (f.group(2), f.group(1), t[f.end():e - 1]) + t[e:]
        report["rewrites"].append("R-for-slice")
    return t


def quotes(t, report):
    while True:
        m = re.search(r"\bquote!\s*\{", t)
        if not m:
            return t
        e = balanced(t, m.end() - 1)
        t = t[:m.start()] + "vf_quote()" + t[e:]
        report["rewrites"].append("R-quote the tokens are opaque")


def build(report):
    src = load(SRC, set(), report)
    out = []
    for g, (n, ty, pid) in OF.items():
        t, _k = slice_of(body_of(src, g), g)
        t = quotes(t, report)
        t = chain(t, report)
        t = re.sub(r"\b(?:std::collections::)?(?:HashSet|BTreeSet)(?:::<\w+>)?::new\(\)", "VfNames::new()", t)
        while True:
            m = re.search(r"\bsyn::Error::new_spanned\(\s*(\w+)\s*,", t)
            if not m:
                break
            o = t.index("(", m.start())
            t = t[:m.start()] + "vf_spanned(%s)" % m.group(1) + t[balanced(t, o, "(", ")"):]
        t = re.sub(r"&container_attrs\b", "container_attrs", t)
        report["dropped"].append("%s: all statements but those that collect the keys and refuse one claimed twice" % g)
        out.append("fn %s(attrs: &Vec<%s>, %scontainer_attrs: &ContainerAttrs) -> Result<(), SynError> {\n%s\nOk(())\n}" % (n, ty, "sink_fieldname: &Vec<Tokens>, " if n == "vf_fields" else "", t))
    report["rewrites"] += ["R-slice-of-body the statements stand in functions of their own", "R-names a HashSet<String> is the set of the texts", "R-opaque syn::Error::new_spanned"]
    src = parse_text("\n".join(out), SRC)
    weave_all(src, FNS, report, [], UNCONTRACTED)
    return HEAD + "verus! {\n" + GLOBAL + spec("core_std.rs") + spec("derive_dup.rs") + "\n// ==== extracted ====\n" + src.render(0, len(src.data)) + "\n} // verus!\nfn main() {}\n"


if __name__ == "__main__":
    rep = new_report()
    open("/tmp/w/derive_dup.rs", "w").write(build(rep))
    print(json.dumps({k: rep[k] for k in ("uncontracted", "missing", "drift", "undecided")}, indent=1))
