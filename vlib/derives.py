"""Which types #[derive] accepts and which it refuses (bounded, C23 - C26): a
table of small programs, each compiled with rustc against /repo's crates as
they are.  Every type of the table of specs/progs.py must be accepted, alone
and with either derive left out; types in which two fields or variants claim
one key, and attributes that are unknown, repeated or malformed, must not."""
import concurrent.futures as cf, json, os, random, subprocess
from specs import progs
from vlib.weave import VERIF, REPO

HEAD = "#![allow(warnings)]\nuse deser::{Serialize, Deserialize};\n"
HELP = "pub fn dflt_u32() -> u32 { 42 }\npub fn none_of<T>() -> Option<T> { None }\npub fn skip_it<T>(_value: &T) -> bool { false }\n"
OF = {"ContDefault": progs.HELPERS.split("\n")[4], "ContPath": progs.HELPERS.split("\n")[5], "ContAll": progs.HELPERS.split("\n")[6]}
S, E, A = ("C24",), ("C26",), ("C23",)


def de(t):
    return HEAD.replace("Serialize, ", "") + "#[derive(Deserialize)]\n" + t


def refused():
    """(properties, source)"""
    o = []
    fields = [
        "pub a: u8, #[deser(rename = \"a\")] pub b: u8",
        "#[deser(rename = \"b\")] pub a: u8, pub b: u8",
        "pub a: u8, pub b: u8, #[deser(rename = \"a\")] pub c: u8",
        "pub a: u8, #[deser(alias = \"a\")] pub b: u8",
        "#[deser(alias = \"b\")] pub a: u8, pub b: u8",
        "#[deser(alias = \"x\")] pub a: u8, #[deser(alias = \"y\", alias = \"x\")] pub b: u8",
        "#[deser(alias = \"x\", alias = \"y\")] pub a: u8, pub b: u8, #[deser(rename = \"y\")] pub c: u8",
        "pub a: u8, #[deser(flatten)] pub f: Other, #[deser(alias = \"a\")] pub c: u8",
        "#[deser(rename = \"\")] pub a: u8, #[deser(alias = \"\")] pub b: u8",
        "#[deser(default, alias = \"k\")] pub a: u8, #[deser(default, rename = \"k\")] pub b: u8",
    ]
    other = "\n#[derive(Deserialize)] pub struct Other { pub z: u8 }\n"
    o += [(S, de("pub struct T { %s }%s" % (f, other))) for f in fields]
    for rule, f in (("camelCase", "pub foo_bar: u8, pub fooBar: u8"), ("UPPERCASE", "pub aa: u8, pub AA: u8"), ("kebab-case", "pub a_b: u8, #[deser(alias = \"a-b\")] pub c: u8"),
                    ("PascalCase", "pub one_two: u8, #[deser(rename = \"OneTwo\")] pub x: u8")):
        o.append((S, de("#[deser(rename_all = \"%s\")]\n#[allow(non_snake_case)]\npub struct T { %s }" % (rule, f))))
    variants = [
        "A, #[deser(rename = \"A\")] B", "#[deser(rename = \"B\")] A, B", "A, B, #[deser(rename = \"A\")] C", "A, #[deser(alias = \"A\")] B",
        "#[deser(alias = \"B\")] A, B", "#[deser(alias = \"x\")] A, #[deser(alias = \"y\", alias = \"x\")] B", "#[deser(alias = \"x\")] A, B, #[deser(rename = \"x\")] C",
    ]
    o += [(E, de("pub enum T { %s }" % v)) for v in variants]
    for rule, v in (("lowercase", "Ab, AB"), ("kebab-case", "AB, #[deser(rename = \"a-b\")] X"), ("snake_case", "OneTwo, #[deser(alias = \"one_two\")] X")):
        o.append((E, de("#[deser(rename_all = \"%s\")]\npub enum T { %s }" % (rule, v))))
    for d in ("Serialize", "Deserialize"):
        h = HEAD + "pub fn mk() -> u8 { 1 }\npub fn no(_: &u8) -> bool { false }\n#[derive(%s)]\n" % d
        for a in ('no_such = "x"', "no_such", 'rename = 1', 'rename_all = "nonsense"', 'rename_all = ""', 'rename = "x", rename = "y"', 'rename_all = "lowercase", rename_all = "lowercase"', "skip_serializing_optionals, skip_serializing_optionals"):
            o.append((A, h + "#[deser(%s)]\npub struct T { pub a: u8 }" % a))
        for a in ('no_such = "x"', "no_such", "rename = 1", "rename", 'rename = "x", rename = "y"', "default, default", 'default = "mk", default = "mk"', "flatten, flatten", 'skip_serializing_if = "no", skip_serializing_if = "no"', 'alias = 1', 'skip_serializing_if = 1', "alias"):
            o.append((A, h + "pub struct T { #[deser(%s)] pub a: u8 }" % a))
        o.append((A, h + "pub struct T { #[deser(rename = \"x\")] #[deser(rename = \"y\")] pub a: u8 }"))
        for a in ('no_such = "x"', "no_such", "rename = 1", 'rename = "x", rename = "y"', "alias", "flatten"):
            o.append((A, h + "pub enum T { A, #[deser(%s)] B }" % a))
        for a in ('no_such = "x"', 'rename_all = "nonsense"', 'rename_all = "lowercase", rename_all = "lowercase"'):
            o.append((A, h + "#[deser(%s)]\npub enum T { A, B }" % a))
    return o


def accepted():
    o = []
    for x in progs.STRUCTS + progs.ENUMS + progs.NEWTYPES:
        t = HELP + OF.get(x.name, "") + "\n" + x.source()
        both = isinstance(x, progs.Struct)
        o.append((("C23", "C24", "C25") if both else ("C23", "C26"), HEAD + t))
        o.append((("C23", "C24" if both else "C26"), HEAD + t.replace("derive(Serialize, Deserialize)", "derive(Deserialize)")))
        o.append((("C23", "C25" if both else "C26"), HEAD + t.replace("derive(Serialize, Deserialize)", "derive(Serialize)")))
    for f in ("#[deser(rename = \"b\")] pub a: u8, #[deser(rename = \"a\")] pub b: u8", "#[deser(rename = \"f\")] pub a: u8, #[deser(flatten)] pub f: Other",
              "#[deser(alias = \"f\")] pub a: u8, #[deser(flatten)] pub f: Other, #[deser(rename = \"A\")] pub c: u8"):
        o.append((S, de("pub struct T { %s }\n#[derive(Deserialize)] pub struct Other { pub z: u8 }" % f)))
    o.append((E, de("pub enum T { #[deser(rename = \"B\")] A, #[deser(rename = \"A\")] B }")))
    o.append((("C25",), HEAD + "#[derive(Serialize)]\npub struct T<'a, 'b: 'a, X> { pub s: &'a str, pub c: std::borrow::Cow<'b, str>, pub x: &'a X }\n"))
    o.append((S + ("C25",), HEAD + "#[derive(Serialize, Deserialize)]\npub struct T<K, V: Clone> where K: Ord { pub k: std::collections::BTreeMap<K, V>, #[deser(default)] pub o: Option<V>, #[deser(skip_serializing_if = \"Vec::is_empty\")] pub l: Vec<K> }\n"))
    return o


def drawn(seed, n):
    """Random types; whether two keys coincide is worked out here."""
    r, o = random.Random(seed), []
    words = ["a", "b", "ab", "a_b", "b_a", "x1", "type_of"]
    keys = ["a", "b", "aB", "a-b", "A", "AB", "A_B", "", "x1", "X1", "bA"]
    for _ in range(n):
        rule = r.choice([None] + progs.RULES)
        if r.random() < 0.6:
            ids = r.sample(words, r.randint(1, 4))
            items = [(i, r.choice(keys) if r.random() < 0.3 else None, r.sample(keys, r.choice([0, 0, 1, 2])), r.random() < 0.15) for i in ids]
            body = ", ".join("#[deser(default%s%s)] pub %s: u8" % ("" if k is None else ", rename = %s" % progs.q(k), "".join(", alias = %s" % progs.q(x) for x in al), i) if not fl else "#[deser(flatten)] pub %s: Other" % i for i, k, al, fl in items)
            claimed = [x for i, k, al, fl in items if not fl for x in [k if k is not None else progs.field_name(i, rule)] + al]
            t, p = "pub struct T { %s }\n#[derive(Deserialize)] pub struct Other { pub z: u8 }" % body, S
        else:
            ids = r.sample(["A", "B", "AB", "Ab", "ABc", "X1"], r.randint(1, 4))
            items = [(i, r.choice(keys) if r.random() < 0.3 else None, r.sample(keys, r.choice([0, 0, 1, 2]))) for i in ids]
            body = ", ".join(("#[deser(%s)] " % ", ".join((["rename = %s" % progs.q(k)] if k is not None else []) + ["alias = %s" % progs.q(x) for x in al]) if k is not None or al else "") + i for i, k, al in items)
            claimed = [x for i, k, al in items for x in [k if k is not None else progs.variant_name(i, rule)] + al]
            t, p = "pub enum T { %s }" % body, E
        own = any((k if k is not None else (progs.field_name if p == S else progs.variant_name)(i, rule)) in al for i, k, al, *_ in items)
        if own and len(claimed) - len(set(claimed)) <= 1:
            continue  # an alias that only repeats the item's own name
        o.append((p, len(set(claimed)) == len(claimed), de(('#[deser(rename_all = "%s")]\n' % rule if rule else "") + t)))
    return o


INTS = "u8 u16 u32 u64 usize i8 i16 i32 i64 isize".split()
TUPLES = ["(%s,)" % ", ".join(["u8"] * n) for n in range(1, 13)]
SEQS = ["Vec<u8>", "Vec<String>", "std::collections::BTreeSet<u8>", "std::collections::HashSet<u8>"]
MAPS = ["std::collections::BTreeMap<String, u8>", "std::collections::HashMap<String, u8>", "std::collections::BTreeMap<u8, Vec<u8>>"]
HASHER = "#[derive(Default)] pub struct H;\nimpl std::hash::BuildHasher for H { type Hasher = std::collections::hash_map::DefaultHasher; fn build_hasher(&self) -> Self::Hasher { Default::default() } }\n"
ARRAYS = ["[u8; %d]" % n for n in (0, 1, 2, 33, 100)] + ["[String; 3]"]
REFS = ["&'static u8", "&'static mut u8", "&'static [u8]", "&'static [String]", "Box<u8>"]
SER = dict(C15=INTS + ["bool", "()", "char", "f32", "f64", "String", "&'static str", "std::borrow::Cow<'static, str>", "Option<u8>"] + REFS,
           C16=SEQS + MAPS + TUPLES + ARRAYS, C19=["Vec<u8>", "[u8; 4]", "&'static [u8]"],
           C14=["Option<u8>", "Option<Vec<u8>>", "Box<u8>", "Box<Option<u8>>"])
DES = dict(C09=INTS, C10=["bool", "()", "char", "f32", "f64", "String"], C11=SEQS, C12=TUPLES + ARRAYS, C13=MAPS, C14=SER["C14"], C19=["Vec<u8>", "[u8; 4]"])
FROM = ["u64", "i64", "f64", "usize", "isize", "bool", "char", "()", "&'static str", "std::borrow::Cow<'static, str>", "&'static [u8]", "String"]


def surface(pid):
    """The types a property speaks of have the impls it speaks of."""
    h = "#![allow(warnings)]\nuse deser::{Serialize, Deserialize};\n"
    o = [h + "pub fn is<T: Serialize>() {}\npub fn f() { is::<%s>() }\n" % t for t in SER.get(pid, [])]
    o += [h + "pub fn is<T: Deserialize>() {}\npub fn f() { is::<%s>() }\n" % t for t in DES.get(pid, [])]
    if pid in ("C11", "C13", "C16"):
        t = "std::collections::HashMap<u8, u8, H>" if pid != "C11" else "std::collections::HashSet<u8, H>"
        o.append(h + HASHER + "pub fn is<T: %s>() {}\npub fn f() { is::<%s>() }\n" % ("Serialize" if pid == "C16" else "Deserialize", t))
    if pid == "C27":
        o += ["pub fn f(x: %s) -> deser::Event<'static> { x.into() }\n" % t for t in FROM + ["deser::Atom<'static>"]]
        o += ["pub fn f(x: %s) -> deser::ser::Chunk<'static> { x.into() }\n" % t for t in FROM if "Cow" not in t]
    return o


LIFE = "#![allow(warnings)]\nuse deser::de::{Deserialize, DeserializeDriver, SinkHandle};\nuse deser::ser::SerializeDriver;\n"
LIVES = [
    (True, "pub fn f() { let mut x = None::<u8>; { let mut d = DeserializeDriver::from_sink(u8::deserialize_into(&mut x)); let _ = d.emit(1u64); } let _ = x; }\n"),
    (True, "pub fn f() { let mut x = None::<u8>; { let mut d = DeserializeDriver::new(&mut x); let _ = d.emit(1u64); } let _ = x; }\n"),
    (True, "pub fn f<'a>(h: SinkHandle<'a>) -> DeserializeDriver<'a> { DeserializeDriver::from_sink(h) }\n"),
    (True, "pub fn f() { let x = 1u8; let mut d = SerializeDriver::new(&x); let _ = d.next(); }\n"),
    (False, "pub fn f() -> DeserializeDriver<'static> { let mut x = None::<u8>; DeserializeDriver::from_sink(SinkHandle::to(deser_sink(&mut x))) }\nfn deser_sink<'a>(x: &'a mut Option<u8>) -> &'a mut dyn deser::de::Sink { todo!() }\n"),
    (False, "pub fn f() { let mut d; { let mut x = None::<u8>; d = DeserializeDriver::from_sink(u8::deserialize_into(&mut x)); } let _ = d.emit(1u64); }\n"),
    (False, "pub fn f() { let mut d; { let mut x = None::<u8>; d = DeserializeDriver::new(&mut x); } let _ = d.emit(1u64); }\n"),
    (False, "pub fn f() { let mut d; { let x = 1u8; d = SerializeDriver::new(&x); } let _ = d.next(); }\n"),
    (False, "pub fn f() { let mut x = None::<u8>; let mut d = DeserializeDriver::new(&mut x); let y = x.take(); let _ = d.emit(1u64); }\n"),
    (False, "pub fn f() { let mut x = 1u8; let mut d = SerializeDriver::new(&x); x = 2; let _ = d.next(); }\n"),
]
SURFACE = set(SER) | set(DES) | {"C27", "C34"}


def library():
    """Builds deser with its derives; the path of its rmeta."""
    d = os.path.join(VERIF, ".build/accept")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    for n, t in (("Cargo.toml", '[package]\nname = "accept"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\ndeser = { path = "%s/deser", features = ["derive"] }\n' % REPO),
                 ("src/lib.rs", ""), ("Cargo.lock", open(os.path.join(VERIF, "harness/Cargo.lock")).read())):
        p = os.path.join(d, n)
        if not os.path.exists(p) or (n != "Cargo.lock" and open(p).read() != t):
            open(p, "w").write(t)
    target = os.path.join(VERIF, ".build/accept-target")
    p = subprocess.run(["cargo", "check", "--offline", "-q", "--message-format=json"], cwd=d, env=dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings"), capture_output=True, text=True)
    lib = None
    for l in p.stdout.split("\n"):
        if l.startswith("{"):
            m = json.loads(l)
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "deser":
                lib = [f for f in m["filenames"] if f.endswith((".rmeta", ".rlib"))][-1]
    if p.returncode != 0 or not lib:
        return None, p.stderr[-1000:]
    return lib, ""


def run(pid, tier, seed, tmp, stop):
    lib, e = library()
    if not lib:
        return dict(error="deser does not build with its derives: " + e)
    cases = [(True, s) for ps, s in accepted() if pid in ps] + [(False, s) for ps, s in refused() if pid in ps]
    cases += [(True, s) for s in surface(pid)]
    cases += [(ok, LIFE + s) for ok, s in LIVES] if pid == "C34" else []
    cases += [(ok, s) for ps, ok, s in drawn(seed, 600 if tier == "thorough" else 40) if pid in ps]

    def one(k):
        n, (want, src) = k
        if stop():
            return None
        f = os.path.join(tmp, "derive_%s_%d.rs" % (pid, n))
        open(f, "w").write(src)
        try:
            p = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "t%d" % n, "--emit=metadata=" + f[:-3] + ".rmeta", "--extern", "deser=" + lib,
                                "-L", "dependency=" + os.path.dirname(lib), "-Awarnings", f], capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return None
        for x in (f, f[:-3] + ".rmeta"):
            if os.path.exists(x):
                os.remove(x)
        return p.returncode == 0, p.stderr

    base = one((100000, (True, HEAD)))
    if not base or not base[0]:
        return dict(error="rustc does not compile an empty program against deser: %s" % (base and base[1][-500:]))
    with cf.ThreadPoolExecutor(6) as ex:
        got = list(ex.map(one, enumerate(cases)))
    fails = []
    for n, ((want, src), g) in enumerate(zip(cases, got)):
        if g is not None and g[0] != want and len(fails) < 5:
            fails.append(dict(case=n, input="the program:\n" + src, message="the program must be accepted, but compiling it fails: " + g[1].strip()[:1500] if want else "the program must be refused (a driver that outlives what it borrows), but it compiles" if pid == "C34" else "the type must be refused (a key claimed twice, or an attribute that is unknown, repeated or malformed), but it compiles"))
    done = [c for c, g in zip(cases, got) if g is not None]
    return dict(evaluations=len(done), distinct_nontrivial=len(set(s for _w, s in done)), rules=["compiled with rustc: drivers that outlive what they borrow, and some that do not"] if pid == "C34" else ["compiled with rustc: the impls the property speaks of exist"] if pid in SURFACE else ["compiled with rustc: every type of the table, with both derives and with either; types and attributes that must be refused; random types whose keys may coincide"],
                samples=[s for _w, s in done[-2:]], fails=fails)
