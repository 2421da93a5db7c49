"""Contracts of deser-derive/src/attr.rs: names, rename rules and attributes."""
from vlib.weave import *
from vlib.expand import balanced, opaque
from specs.core import spec
from specs.driver_de import HEAD, GLOBAL

SRC = "deser-derive/src/attr.rs"
UNCONTRACTED = []
FNS = {}


def F(k, props=("C23",), **kw):
    FNS[k] = C(props=list(props), **kw)


A = ("C24", "C25", "C26")
LITS = ["lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"]
F("RenameAll::parse", ens=["match r { Ok(x) => lit_rule(*lit) == Some(x), Err(_) => lit_rule(*lit) is None }"], entry_raw="broadcast use ax_str;",
  entry=" ".join('reveal_strlit("%s");' % x for x in LITS) + " ".join('assert("%s"@.len() == %d && "%s"@[0] == \'%s\');' % (x, len(x), x, x[0]) for x in LITS))
F("get_lit_str", ens=["match r { Ok(x) => lit_str(*lit) == Some(x@), Err(_) => lit_str(*lit) is None }"])
F("parse_lit_into_expr_path", props=[], external=True, ens=["match r { Ok(x) => lit_path(*lit) == Some(x), Err(_) => lit_path(*lit) is None }"])
N = "final_name"
F("ContainerAttrs::container_name", ens=["r@ == (match sv(self.rename) { Some(s) => s, None => self.ident.text() })"])
F("ContainerAttrs::get_field_name", req=["field.ident is Some"], ens=["r@ == field_name(self.rename_all, field.ident->Some_0.text())"],
  entry_raw="let ghost t = field.ident->Some_0.text();",
  loops=[L(["%s@ == joined(t.take(it.index@), %s)" % (v, f), "capitalize == caps(t.take(it.index@), %s)" % f, "name@ == t"],
           start="assert(t.take(it.index@ + 1).drop_last() =~= t.take(it.index@)); assert(t.take(t.len() as int) =~= t);", after="proof { assert(t.take(t.len() as int) =~= t); }")
         for v, f in (("pascal", "true"), ("camel", "false"))])
F("ContainerAttrs::get_variant_name", ens=["r@ == variant_name(self.rename_all, variant.ident.text())"],
  entry_raw="let ghost t = variant.ident.text();",
  loops=[L(["rv@ == split(t.take(it.index@), sep, upper)", "name@ == t"],
           start="assert(t.take(it.index@ + 1).drop_last() =~= t.take(it.index@)); assert(t.take(t.len() as int) =~= t);", after="proof { assert(t.take(t.len() as int) =~= t); }")])
F("ContainerAttrs::default", props=A, ens=["match r { Some(x) => self.default == Some(*x), None => self.default is None }"])
F("ContainerAttrs::skip_serializing_optionals", props=A, ens=["r == self.skip_serializing_optionals"])
for t, k, p, isf in (("ContainerAttrs", "Container", "c_is", "input"), ("FieldAttrs", "Field", "f_is", "field"), ("EnumVariantAttrs", "Variant", "v_is", "variant")):
    bad = "(v.flatten && v.default is Some)" if k == "Field" else "false"
    own = "x.ident == &input.ident" if k == "Container" else "x.%s == %s" % (isf, isf)
    F(t + "::of", props=["C23"] + list(A), ens=["match r { Ok(x) => %s && (afold(Kind::%s, metas(%s.attrs@)) matches Some(v) && (%s(x, v) && !%s)), Err(_) => afold(Kind::%s, metas(%s.attrs@)) matches Some(v) ==> %s }"
                          % (own, k, isf, p, bad, k, isf, bad)],
      entry_raw="let ghost ms = metas(%s.attrs@);" % isf, entry="lemma_names(); assert(ms.take(0) =~= seq![]);",
      loops=[L(["ms == metas(%s.attrs@)" % isf, own.replace("x.", "rv."), "(afold(Kind::%s, ms.take(it.index@)) matches Some(v) && %s(rv, v))" % (k, p)],
               start="lemma_afold(Kind::%s, ms, it.index@);" % k, after="proof { assert(ms.take(ms.len() as int) =~= ms); }")])
F("FieldAttrs::field", ens=["*r == *self.field"])
F("FieldAttrs::name", req=["self.field.ident is Some || self.rename is Some"], ens=["cow_str(r) == (match sv(self.rename) { Some(s) => s, None => field_name(container_attrs.rename_all, self.field.ident->Some_0.text()) })"], entry_raw="broadcast use core_std;")
F("EnumVariantAttrs::variant", ens=["*r == *self.variant"])
F("EnumVariantAttrs::name", ens=["cow_str(r) == (match sv(self.rename) { Some(s) => s, None => variant_name(container_attrs.rename_all, self.variant.ident.text()) })"], entry_raw="broadcast use core_std;")
for t in ("FieldAttrs", "EnumVariantAttrs"):
    F(t + "::aliases", props=A, ens=["svs(r@) == svs(self.aliases@)"])
F("FieldAttrs::default", props=A, ens=["match r { Some(x) => self.default == Some(*x), None => self.default is None }"])
F("FieldAttrs::flatten", props=A, ens=["r == self.flatten"])
F("FieldAttrs::skip_serializing_if", props=A, ens=["match r { Some(x) => self.skip_serializing_if == Some(*x), None => self.skip_serializing_if is None }"])
F("ensure_no_field_attrs", props=A, ens=["match r { Ok(_) => metas(field.attrs@).len() == 0, Err(_) => metas(field.attrs@).len() > 0 }"])


def rewrite(t, report):
    t = re.sub(r"(?m)^\s*use [^;]*;", "", t)
    t = re.sub(r"(?m)^\s*//.*$", "", t)
    while True:
        m = re.search(r"\bformat!\(", t)
        if not m:
            break
        t = t[:m.start()] + "vf_format()" + t[balanced(t, m.end() - 1, "(", ")"):]
        report["rewrites"].append("R-format")
    t, n = re.subn(r"\b(\w+\.attrs)\s*\.iter\(\)\s*\.flat_map\(get_meta_items\)\s*\.flatten\(\)\s*\.next\(\)", r"vf_first(vf_metas(&\1))", t)
    t, n = re.subn(r"\b(\w+\.attrs)\s*\.iter\(\)\s*\.flat_map\(get_meta_items\)\s*\.flatten\(\)", r"vf_metas(&\1)", t)
    if n:
        report["rewrites"].append("R-metas x%d x.attrs.iter().flat_map(get_meta_items).flatten() is vf_metas(&x.attrs)" % n)
    t, n = re.subn(r"\b(\w+)\.replace\(\"(\w|[-_.])\", \"(\w|[-_.])\"\)", r"vf_replace(&\1, '\2', '\3')", t)
    report["rewrites"].append("R-replace x%d str::replace of one character by one" % n)
    while True:
        m = re.search(r"\b(\w+)\s*\.char_indices\(\)\s*\.map\(\|\((\w+), (\w+)\)\|", t)
        if not m:
            break
        i = t.index(".map(", m.start()) + 4
        e = balanced(t, i, "(", ")")
        c = re.match(r"\s*\.collect\(\)", t[e:])
        if not c:
            raise Drift("R-collect: not followed by collect")
        t = (t[:m.start()] + "vf_map_collect(vf_char_indices(&%s), |vf_p: (usize, char)| -> char /*vf_c*/ { let (%s, %s) = vf_p; %s })"
             % (m.group(1), m.group(2), m.group(3), t[m.end():e - 1]) + t[e + c.end():])
        report["rewrites"].append("R-collect char_indices().map(f).collect() is vf_map_collect, R-closure f states its result")
    t, n = re.subn(r"\bin (\w+)\.char_indices\(\)", r"in vf_char_indices(&\1)", t)
    report["rewrites"].append("R-charindices x%d" % n)
    while True:
        m = re.search(r"\bself\s*\.(\w+)\s*\.as_deref\(\)\s*\.map\(Cow::Borrowed\)\s*\.unwrap_or_else\(\|\|", t)
        if not m:
            break
        i = t.index(".unwrap_or_else(", m.start()) + len(".unwrap_or_else(") - 1
        e = balanced(t, i, "(", ")")
        t = t[:m.start()] + "match self.%s { Some(ref vf_s) => Cow::Borrowed(vf_s.as_str()), None => %s }" % (m.group(1), t[m.end():e - 1]) + t[e:]
        report["rewrites"].append("R-optmap as_deref().map(Cow::Borrowed).unwrap_or_else(f) is a match")
    return t


def build(report):
    src = load(SRC, set(), report)
    d = src.data
    for f in sorted((f for f in src.fns if f["key"] in ("get_meta_items", "respan")), key=lambda f: -f["span"][0]):
        d = d[:f["span"][0]] + d[f["span"][1]:]
        report["dropped"].append("fn %s (%s)" % (f["key"], SRC))
    t = opaque(rewrite(d.decode(), report), ("parse_lit_into_expr_path",), report, SRC).replace("#[verifier::external_body] fn parse_lit", "fn parse_lit")
    src = parse_text(t, SRC)
    rule_vis(src, report)
    weave_all(src, FNS, report)
    ext = "#[verifier::external_body]\npub fn vf_first(v: Vec<syn::NestedMeta>) -> (r: Option<syn::NestedMeta>) ensures r is Some <==> v@.len() > 0 { unimplemented!() }\n"
    return (HEAD + "use vstd::std_specs::iter::IteratorSpec;\nverus! {\n" + GLOBAL + spec("core_std.rs") + spec("derive_attr.rs") + ext
            + "\n// ==== extracted ====\n" + src.render(0, len(src.data)).replace("-> char /*vf_c*/", "-> (vf_c: char) ensures vf_c == (if vf_p.0 == 0 { low(vf_p.1) } else { vf_p.1 })") + "\n} // verus!\nfn main() {}\n")


if __name__ == "__main__":
    rep = new_report()
    open("/tmp/w/derive_attr.rs", "w").write(build(rep))
    print(json.dumps({k: rep[k] for k in ("uncontracted", "missing", "drift", "undecided")}, indent=1))
