"""Representative derived types.  Field types are type parameters wherever the
derive allows it, so that what is proved about the generated code holds for
every field type; which names and attributes a type has is fixed here, and what
they mean is worked out here, independently of deser-derive."""
import os
from vlib.weave import VERIF, REPO, Drift
from vlib.expand import expanded

RULES = ["lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"]


def cap(w):
    return w[:1].upper() + w[1:]


def field_name(ident, rule):
    n = ident[2:] if ident.startswith("r#") else ident
    words = n.split("_")
    return {
        None: n, "lowercase": n, "snake_case": n, "UPPERCASE": n.upper(), "SCREAMING_SNAKE_CASE": n.upper(),
        "PascalCase": "".join(map(cap, words)), "camelCase": words[0] + "".join(map(cap, words[1:])),
        "kebab-case": "-".join(words), "SCREAMING-KEBAB-CASE": "-".join(words).upper(),
    }[rule]


def variant_name(ident, rule):
    n = ident[2:] if ident.startswith("r#") else ident
    words = []
    for ch in n:
        if ch.isupper() or not words:
            words.append(ch)
        else:
            words[-1] += ch
    low = [w.lower() for w in words]
    return {
        None: n, "PascalCase": n, "lowercase": n.lower(), "UPPERCASE": n.upper(), "camelCase": n[:1].lower() + n[1:],
        "snake_case": "_".join(low), "SCREAMING_SNAKE_CASE": "_".join(low).upper(), "kebab-case": "-".join(low),
        "SCREAMING-KEBAB-CASE": "-".join(low).upper(),
    }[rule]


def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'


class Field:
    """default: None, 'trait' (of the type) or the name of a function;
    skip: name of a function."""

    def __init__(self, ident, ty, rename=None, alias=(), default=None, flatten=False, skip=None):
        self.ident, self.ty, self.rename, self.alias = ident, ty, rename, list(alias)
        self.default, self.flatten, self.skip = default, flatten, skip
        self.raw = ident[2:] if ident.startswith("r#") else ident


class Struct:
    """params: the type parameters with their bounds; default as for a field."""

    def __init__(self, name, fields, params=(), rule=None, default=None, skip_optionals=False, rename=None, where=""):
        self.name, self.fields, self.params, self.rule, self.default = name, fields, list(params), rule, default
        self.skip_optionals, self.rename, self.where = skip_optionals, rename, where
        for f in fields:
            f.name = f.rename if f.rename is not None else field_name(f.ident, rule)
            f.keys = [f.name] + f.alias
        keys = [k for f in fields if not f.flatten for k in f.keys]
        assert len(keys) == len(set(keys)), keys
        self.args = "<%s>" % ", ".join(p.split(":")[0] for p in self.params) if self.params else ""
        self.gen = "<%s>" % ", ".join(self.params) if self.params else ""
        self.ty = name + self.args

    def source(self):
        o, a = ["#[derive(Serialize, Deserialize)]"], []
        if self.rule:
            a.append('rename_all = "%s"' % self.rule)
        if self.rename:
            a.append("rename = %s" % q(self.rename))
        if self.default:
            a.append("default" if self.default == "trait" else 'default = "%s"' % self.default)
        if self.skip_optionals:
            a.append("skip_serializing_optionals")
        if a:
            o.append("#[deser(%s)]" % ", ".join(a))
        o.append("pub struct %s%s %s {" % (self.name, self.gen, self.where))
        for f in self.fields:
            a = []
            if f.rename is not None:
                a.append("rename = %s" % q(f.rename))
            a += ["alias = %s" % q(x) for x in f.alias]
            if f.default:
                a.append("default" if f.default == "trait" else 'default = "%s"' % f.default)
            if f.flatten:
                a.append("flatten")
            if f.skip:
                a.append('skip_serializing_if = "%s"' % f.skip)
            # one attribute for all, or one for each
            if len(f.raw) % 2 and len(a) > 1:
                o += ["    #[deser(%s)]" % x for x in a]
            elif a:
                o.append("    #[deser(%s)]" % ", ".join(a))
            o.append("    pub %s: %s," % (f.ident, f.ty))
        return "\n".join(o) + "\n}\n"


class Enum:
    def __init__(self, name, variants, rule=None):
        """variants: (ident, rename or None, [aliases])"""
        self.name, self.rule = name, rule
        self.variants = [(v[0], v[1] if v[1] is not None else variant_name(v[0], rule), list(v[2]), v[1]) for v in variants]

    def source(self):
        o = ["#[derive(Serialize, Deserialize)]"]
        if self.rule:
            o.append('#[deser(rename_all = "%s")]' % self.rule)
        o.append("pub enum %s {" % self.name)
        for ident, _n, al, ren in self.variants:
            a = (["rename = %s" % q(ren)] if ren is not None else []) + ["alias = %s" % q(x) for x in al]
            if a:
                o.append("    #[deser(%s)]" % ", ".join(a))
            o.append("    %s," % ident)
        return "\n".join(o) + "\n}\n"


class Newtype:
    def __init__(self, name, inner, params=()):
        self.name, self.inner, self.params = name, inner, list(params)
        self.args = "<%s>" % ", ".join(p.split(":")[0] for p in self.params) if self.params else ""
        self.gen = "<%s>" % ", ".join(self.params) if self.params else ""
        self.ty = name + self.args

    def source(self):
        return "#[derive(Serialize, Deserialize)]\npub struct %s%s(pub %s);\n" % (self.name, self.gen, self.inner)


F = Field
AB, ABC, ABCD = ["A", "B"], ["A", "B", "C"], ["A", "B", "C", "D"]
STRUCTS = [
    Struct("Nothing", []),
    Struct("One", [F("a", "A")], ["A"]),
    Struct("Plain", [F("a", "A"), F("b", "B"), F("c", "C")], ABC),
    Struct("Concrete", [F("id", "u64"), F("user_name", "String"), F("tags", "Vec<String>"), F("key", "Option<bool>")]),
    Struct("Camel", [F("first_name", "A"), F("zip_code", "B", rename="Zip"), F("r#type", "C")], ABC, rule="camelCase"),
    Struct("Shout", [F("r#match", "A"), F("key_2", "B"), F("slot", "C", rename="")], ABC, rule="SCREAMING-KEBAB-CASE", rename="Loud"),
    Struct("Aliased", [F("a", "A", alias=["x", "y"]), F("bb", "B", rename="a b", alias=["b"]), F("ccc", "C", alias=["A"])], ABC),
    Struct("FieldDefault", [F("a", "A", default="trait"), F("b", "B"), F("cc", "u32", default="dflt_u32")], ["A: Default", "B"]),
    Struct("AllDefault", [F("a", "A", default="trait"), F("b", "B", default="trait", alias=["bee"])], ["A: Default", "B: Default"]),
    Struct("OptDefault", [F("a", "Option<A>"), F("b", "Option<B>", default="none_of"), F("c", "Option<u8>", default="trait")], AB),
    Struct("ContDefault", [F("a", "A"), F("b", "B", default="trait"), F("c", "C")], ["A: Default", "B: Default", "C: Default"], default="trait"),
    Struct("ContPath", [F("a", "A"), F("b", "B"), F("n", "u32", default="dflt_u32")], AB, default="mk_cont_path"),
    Struct("ContAll", [F("a", "u32", default="dflt_u32"), F("b", "A", default="trait")], ["A: Default"], default="trait"),
    Struct("Flat", [F("a", "A"), F("inner", "B", flatten=True)], AB),
    Struct("FlatFirst", [F("inner", "A", flatten=True), F("b", "B", default="trait", alias=["beta"]), F("c", "C")], ["A", "B: Default", "C"]),
    Struct("FlatTwo", [F("x", "A", flatten=True), F("b", "B"), F("z", "C", flatten=True), F("d", "D")], ABCD, rule="UPPERCASE"),
    Struct("FlatOnly", [F("x", "A", flatten=True), F("y", "B", flatten=True)], AB),
    Struct("FlatSkip", [F("a", "A", skip="skip_it"), F("inner", "B", flatten=True, skip="skip_it"), F("c", "C")], ABC),
    Struct("FlatOpts", [F("a", "A"), F("inner", "B", flatten=True), F("c", "C")], ABC, skip_optionals=True),
    Struct("FlatOptsSkip", [F("x", "A", flatten=True, skip="skip_it"), F("b", "B", skip="skip_it"), F("z", "C", flatten=True)], ABC, skip_optionals=True),
    Struct("SkipIf", [F("a", "A", skip="skip_it"), F("b", "B"), F("c", "C", skip="skip_it", rename="sea")], ABC),
    Struct("SkipAll", [F("a", "A", skip="skip_it"), F("b", "B", skip="skip_it")], AB),
    Struct("SkipOpts", [F("a", "A"), F("b", "B"), F("c", "C", rename="C")], ABC, skip_optionals=True, rule="PascalCase"),
    Struct("SkipBoth", [F("a", "A"), F("b", "B", skip="skip_it"), F("c", "C", default="trait")], ["A", "B", "C: Default"], skip_optionals=True),
]
for i, r in enumerate(RULES):
    STRUCTS.append(Struct("Rule%d" % i, [F("one", "A"), F("two_words", "B"), F("three_whole_words", "A"), F("x1_y2", "B", alias=["alias_kept"]), F("as_is", "A", rename="As_Is")], AB, rule=r))
ENUMS = [
    Enum("Unit", [("Only", None, [])]),
    Enum("Names", [("Red", None, []), ("Green", "GREEN!", ["verde"]), ("DarkBlue", None, ["navy", "dark-blue"]), ("None", "", [])]),
]
for i, r in enumerate(RULES):
    ENUMS.append(Enum("ERule%d" % i, [("Some", None, []), ("TwoWords", None, []), ("HTTPServer2", None, ["alias"]), ("Kept", "As_Is", [])], rule=r))
NEWTYPES = [Newtype("Wrap", "A", ["A"]), Newtype("WrapBytes", "Vec<u8>"), Newtype("WrapOpt", "Option<A>", ["A"])]

HELPERS = '''
pub fn dflt_u32() -> u32 { 42 }
pub fn none_of<T>() -> Option<T> { None }
pub fn skip_it<T>(_value: &T) -> bool { false }
impl<A: Default, B: Default, C: Default> Default for ContDefault<A, B, C> { fn default() -> Self { ContDefault { a: A::default(), b: B::default(), c: C::default() } } }
pub fn mk_cont_path<A, B>() -> ContPath<A, B> { loop {} }
impl<A: Default> Default for ContAll<A> { fn default() -> Self { ContAll { a: 1, b: A::default() } } }
'''


def source():
    return "#![allow(dead_code, unused)]\nuse deser::{Serialize, Deserialize};\n" + "\n".join(x.source() for x in STRUCTS + ENUMS + NEWTYPES) + HELPERS


def crate():
    """Writes the crate and returns rustc's expansion of it."""
    d = os.path.join(VERIF, ".build/progs")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    put = {"Cargo.toml": '[package]\nname = "progs"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[features]\ndefault = []\n\n[dependencies]\ndeser = { path = "%s/deser", features = ["derive"] }\n' % REPO,
           "src/lib.rs": source(), "Cargo.lock": open(os.path.join(VERIF, "harness/Cargo.lock")).read()}
    for n, t in put.items():
        p = os.path.join(d, n)
        if n == "Cargo.lock" and os.path.exists(p):
            continue
        if not os.path.exists(p) or open(p).read() != t:
            open(p, "w").write(t)
    return expanded("progs", cwd=d)


if __name__ == "__main__":
    open("/tmp/w/progs_exp.rs", "w").write(crate())
