"""Contracts of the built-in targets: deser/src/de/impls.rs, de/ignore.rs, the
Sink and Deserialize traits of de/mod.rs and Atom::unexpected_error, all taken
from rustc's macro expansion of the crate (so every macro instance is under
contract)."""
from vlib.weave import *
from vlib.expand import *
from specs.core import types, spec

SRC = "deser (macro expanded): de::impls, de::ignore, de::{Sink, Deserialize}, event::Atom::unexpected_error"
UNCONTRACTED = []
THEOREMS = {"C11": ["lemma_vec", "lemma_set"], "C12": ["lemma_array"], "C13": ["lemma_map"]}
FNS = {}
FEEDS = {}
SAME = "*final(self) == *old(self)"
INTS = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "isize", "usize"]


def F(k, **kw):
    kw.setdefault("entry_raw", "broadcast use {de_std, core_std};")
    FNS[k] = C(**kw)


def slot(ty, arms, props, extra_also=(), entry=""):
    F("<SlotWrapper<%s> as Sink>::atom" % ty, ens=["match atom { %s _ => unexpected(r) && %s }" % (arms, SAME)], props=props, also=["C14"], entry=entry)
    F("<%s as Deserialize>::deserialize_into" % ty, props=props, also=["C14"])
    FEEDS[ty] = "slot_feeds::<%s>(h, init, fin)" % ty


F("SlotWrapper<T>::wrap", ens=["r.0 == *old(out)", "final(r).0 == *final(out)"], external=True, entry_raw="", props=["C09", "C10"])
F("SlotWrapper<T>::make_handle", ens=["slot_feeds::<T>(r, *old(out), *final(out))"], props=["C09", "C10"])
F("<SlotWrapper<T> as std::ops::Deref>::deref", ens=["*r == self.0"], props=["C09", "C10"])
F("<SlotWrapper<T> as std::ops::DerefMut>::deref_mut", ens=["*r == old(self).0", "final(self).0 == *final(r)"], props=["C09", "C10"])

slot("()", "Atom::Null => r is Ok && final(self).0 == Some(()),", ["C10"])
slot("bool", "Atom::Bool(b) => r is Ok && final(self).0 == Some(b),", ["C10"])
slot("String", "Atom::Str(s) => r is Ok && final(self).0 is Some && final(self).0->Some_0@ == cow_str(s),", ["C10"])
slot("char", "Atom::Char(c) => r is Ok && final(self).0 == Some(c), Atom::Str(s) => if cow_str(s).len() == 1 { r is Ok && final(self).0 == Some(cow_str(s)[0]) } else { unexpected(r) && %s }," % SAME, ["C10"])
for t in INTS:
    arm = lambda k: "Atom::%s(v) => if %s::MIN as int <= v as int && v as int <= %s::MAX as int { r is Ok && final(self).0 is Some && final(self).0->Some_0 as int == v as int } else { r is Err && r->Err_0.kind_of() == ErrorKind::OutOfRange && %s }," % (k, t, t, SAME)
    slot(t, arm("U64") + arm("I64"), ["C09"], entry={"u64": "ax_try_u64();", "i64": "ax_try_i64(); ax_try_i64_u64();"}.get(t, ""))
for t in ("f32", "f64"):
    slot(t, "Atom::U64(v) => r is Ok && final(self).0 == Some(%s_of_u64(v)), Atom::I64(v) => r is Ok && final(self).0 == Some(%s_of_i64(v)), Atom::F64(v) => r is Ok && final(self).0 == Some(%s)," % (t, t, "v" if t == "f64" else "f32_of_f64(v)"), ["C10"])
F("<u8 as Deserialize>::__private_is_bytes", props=["C19"])

# --- the traits' default methods -------------------------------------------
RQ = ["old(self).ready()"]
KEEP = ["r is Ok ==> final(self).ready()"]
NOEFF = "same(&*final(self), &*old(self))"
F("Sink::atom", req=RQ, ens=KEEP, default_ens=["unexpected(r)", NOEFF], props=["C10"], also=["C11", "C12", "C13", "C14"])
F("Sink::unexpected_atom", ens=["unexpected(r)", NOEFF], props=["C10"], also=["C09"])
F("Sink::map", req=RQ, ens=KEEP, default_ens=["unexpected(r)", NOEFF], props=["C10"], also=["C11", "C12", "C13", "C14"])
F("Sink::seq", req=RQ, ens=KEEP, default_ens=["unexpected(r)", NOEFF], props=["C10"], also=["C11", "C12", "C13", "C14"])
F("Sink::next_key", req=RQ, ens=KEEP, default_ens=["r is Ok", "ignores(r->Ok_0)", NOEFF], props=["C20"])
F("Sink::next_value", req=RQ, ens=KEEP, default_ens=["r is Ok", "ignores(r->Ok_0)", NOEFF], props=["C20"])
F("Sink::value_for_key", req=RQ, ens=KEEP, default_ens=["r is Ok", "r->Ok_0 is None", NOEFF], props=["C20"])
F("Sink::finish", req=RQ, default_ens=["r is Ok", NOEFF], props=["C10"], also=["C20"])
F("Deserialize::deserialize_into", ens=["Self::feeds(r, *old(out), *final(out))"], props=["C14"])
F("Deserialize::__private_initial_value", ens=["r == Self::initial()"], props=["C24"], entry_raw="")
F("Deserialize::__private_is_bytes", ens=["r == Self::bytes_type()"], props=["C19"], entry_raw="")
F("fail_unexpected", ens=["unexpected(r)"], props=["C10"])
F("Atom::unexpected_error", ens=["r.kind_of() == ErrorKind::Unexpected"], props=["C10"], also=["C09"])

# --- ignoring sink -----------------------------------------------------------
for n in ("atom", "map", "seq"):
    F("<Ignore as Sink>::" + n, ens=["r is Ok", SAME], props=["C20"])
for n in ("next_key", "next_value"):
    F("<Ignore as Sink>::" + n, ens=["r is Ok", "ignores(r->Ok_0)", SAME], props=["C20"])

# --- Vec ----------------------------------------------------------------------
P11 = dict(props=["C11"])
VG = "final(self).vec@ == old(self).vec@ + opt_seq(old(self).element)"
FUT = "*final(final(self).slot) == *final(old(self).slot)"
F("VecSink<T>::flush", ens=[VG, "final(self).element is None", "final(self).slot == old(self).slot", "final(self).is_seq == old(self).is_seq"], **P11)
F("<VecSink<T> as Sink>::atom", ens=[
    "match atom { Atom::Bytes(b) => if T::bytes_type() { r is Ok && *final(self).slot is Some && (*final(self).slot)->Some_0@ == bytes_as::<T>(cow_bytes(b)) && %s && final(self).vec == old(self).vec && final(self).element == old(self).element && final(self).is_seq == old(self).is_seq } else { unexpected(r) && %s }, _ => unexpected(r) && %s }" % (FUT, SAME, SAME)],
  props=["C19", "C11"], entry="T::bytes_type_ok();")
F("<VecSink<T> as Sink>::seq", ens=["r is Ok", "final(self).is_seq", "final(self).vec == old(self).vec && final(self).element == old(self).element && final(self).slot == old(self).slot"], **P11)
F("<VecSink<T> as Sink>::next_value", ens=["r is Ok", "T::feeds(r->Ok_0, None, final(self).element)", VG, "final(self).slot == old(self).slot", "final(self).is_seq == old(self).is_seq"], **P11)
F("<VecSink<T> as Sink>::finish", ens=["r is Ok",
  "old(self).is_seq ==> *final(self).slot is Some && (*final(self).slot)->Some_0@ == old(self).vec@ + opt_seq(old(self).element)",
  "!old(self).is_seq ==> " + SAME, FUT], props=["C11"], also=["C19"])
F("<Vec<T> as Deserialize>::deserialize_into", props=["C11", "C19"])
FEEDS["Vec<T>"] = "exists|s: VecSink<T>| #[trigger] owns(h, s) && s.vec@.len() == 0 && s.element is None && !s.is_seq && *s.slot == init && *final(s.slot) == fin"

# --- sets ----------------------------------------------------------------------
for sink, ty, cond, bounds in (("BTreeSetSink<T>", "BTreeSet<T>", "vstd::std_specs::btree::key_obeys_cmp_spec::<T>()", ""),
                               ("HashSetSink<T,H>", "HashSet<T,H>", "obeys_key_model::<T>() && builds_valid_hashers::<H>()", "")):
    post = "%s ==> %%s == set_put(old(self).set@, old(self).element)" % cond
    F(sink + "::flush", ens=[post % "final(self).set@", "final(self).element is None", "final(self).slot == old(self).slot"], **P11)
    F("<%s as Sink>::seq" % sink, ens=["r is Ok", SAME], **P11)
    F("<%s as Sink>::next_value" % sink, ens=["r is Ok", "T::feeds(r->Ok_0, None, final(self).element)", post % "final(self).set@", "final(self).slot == old(self).slot"], **P11)
    F("<%s as Sink>::finish" % sink, ens=["r is Ok", "*final(self).slot is Some", post % "(*final(self).slot)->Some_0@", FUT], **P11)
    F("<%s as Deserialize>::deserialize_into" % ty, **P11)
    sty = sink.replace(",", ", ")
    FEEDS[ty] = "exists|s: %s| #[trigger] owns(h, s) && s.set@.len() == 0 && s.element is None && *s.slot == init && *final(s.slot) == fin" % sty

# --- maps ----------------------------------------------------------------------
P13 = dict(props=["C13"])
for sink, ty, cond in (("BTreeMapMapSink<K,V>", "BTreeMap<K,V>", "vstd::std_specs::btree::key_obeys_cmp_spec::<K>()"),
                       ("HashMapMapSink<K,V,H>", "HashMap<K,V,H>", "obeys_key_model::<K>() && builds_valid_hashers::<H>()")):
    post = "%s ==> %%s == map_put(old(self).map@, old(self).key, old(self).value)" % cond
    F(sink + "::flush", ens=[post % "final(self).map@", "final(self).key is None", "final(self).value is None", "final(self).slot == old(self).slot"], **P13)
    F("<%s as Sink>::map" % sink, ens=["r is Ok", SAME], **P13)
    F("<%s as Sink>::next_key" % sink, ens=["r is Ok", "K::feeds(r->Ok_0, None, final(self).key)", post % "final(self).map@", "final(self).value is None", "final(self).slot == old(self).slot"], **P13)
    F("<%s as Sink>::next_value" % sink, ens=["r is Ok", "V::feeds(r->Ok_0, old(self).value, final(self).value)", "final(self).map == old(self).map", "final(self).key == old(self).key", "final(self).slot == old(self).slot"], **P13)
    F("<%s as Sink>::finish" % sink, ens=["r is Ok", "*final(self).slot is Some", post % "(*final(self).slot)->Some_0@", FUT], **P13)
    F("<%s as Deserialize>::deserialize_into" % ty, **P13)
    FEEDS[ty] = "exists|s: %s| #[trigger] owns(h, s) && s.map@ == Map::<K, V>::empty() && s.key is None && s.value is None && *s.slot == init && *final(s.slot) == fin" % sink.replace(",", ", ")

# --- Option ----------------------------------------------------------------------
P14 = dict(props=["C14"])
FNS["<Option<T> as Deserialize>::deserialize_into"] = C(**P14)
FEEDS["Option<T>"] = ("exists|inner: SinkHandle<'_>, f: Option<T>| #[trigger] T::feeds(inner, None, f) && fin == Some(f) && "
                      "(if ignores(inner) { h == inner } else { exists|s: NullIgnoringSink<'_>| #[trigger] owns(h, s) && s.sink == inner && !s.forwarded })")
F("<Option<T> as Deserialize>::__private_initial_value", ens=["r == Some(None::<T>)"], props=["C24"], also=[])
NI = "<NullIgnoringSink as Sink>::"
F(NI + "atom", ens=["match atom { Atom::Null => r is Ok && %s, _ => did(old(self).sink, Call::Atom(atom_ev(atom)), r, final(self).sink) && final(self).forwarded }" % SAME], **P14)
for n, c in (("map", "Map"), ("seq", "Seq")):
    F(NI + n, ens=["did(old(self).sink, Call::%s, r, final(self).sink)" % c, "final(self).forwarded"], **P14)
for n, c in (("next_key", "NextKey"), ("next_value", "NextValue")):
    F(NI + n, ens=["gave(old(self).sink, Call::%s, r, final(self).sink)" % c, "final(self).forwarded == old(self).forwarded"], **P14)
F(NI + "value_for_key", ens=["gave_opt(old(self).sink, Call::ValueForKey(key@), r, final(self).sink)", "final(self).forwarded == (old(self).forwarded || (r is Ok && r->Ok_0 is Some))"], **P14)
F(NI + "finish", ens=["if old(self).forwarded { did(old(self).sink, Call::Finish, r, final(self).sink) && final(self).forwarded } else { r is Ok && %s }" % SAME], **P14)

# --- Box -------------------------------------------------------------------------
BX = "<BoxSink<T> as Sink>::"
H = "old(self).sink.handle()"
HF = "final(self).sink.handle()"
OUT = "final(self).out == old(self).out"
F(BX + "atom", ens=["did(%s, Call::Atom(atom_ev(atom)), r, %s)" % (H, HF), OUT], **P14)
for n, c in (("map", "Map"), ("seq", "Seq")):
    F(BX + n, ens=["did(%s, Call::%s, r, %s)" % (H, c, HF), OUT], **P14)
for n, c in (("next_key", "NextKey"), ("next_value", "NextValue")):
    F(BX + n, ens=["gave(%s, Call::%s, r, %s)" % (H, c, HF), OUT], **P14)
F(BX + "value_for_key", ens=["gave_opt(%s, Call::ValueForKey(key@), r, %s)" % (H, HF), OUT], **P14)
F(BX + "finish", ens=["exists|post: SinkHandle<'_>, r0: Result<(), Error>| #[trigger] did(%s, Call::Finish, r0, post) && r0 is Ok == r is Ok && (r is Err ==> r == r0 && %s) && (r is Ok ==> *final(self).out == (match slot_now::<T>(post) { Some(x) => Some(Box::new(x)), None => None }))" % (H, OUT),
   "*final(final(self).out) == *final(old(self).out)"], **P14)
F("<Box<T> as Deserialize>::deserialize_into", **P14)
FEEDS["Box<T>"] = "exists|s: BoxSink<T>| #[trigger] owns(h, s) && owned_fresh(s.sink) && *s.out == init && *final(s.out) == fin"

# --- tuples ------------------------------------------------------------------------
P12 = dict(props=["C12"])
for k in range(1, 13):
    ts = ["T%d" % i for i in range(13 - k, 13)]
    sink = "Tuple%dTupleSink<%s>" % (k, ",".join(ts))
    if k == 12:
        ty = "(%s)" % ",".join(ts)
    ty = "(%s)" % ",".join(ts) if k > 1 else "(%s,)" % ts[0]
    rest = lambda t: " && ".join("final(self).%s == old(self).%s" % (x, x) for x in ts + ["slot"] if x != t)
    F("<%s as Sink>::seq" % sink, ens=["r is Ok", SAME], **P12)
    nv = ["old(self).index == %d ==> r is Ok && %s::feeds(r->Ok_0, old(self).%s, final(self).%s) && %s" % (i, t, t, t, rest(t)) for i, t in enumerate(ts)]
    F("<%s as Sink>::next_value" % sink, ens=nv + ["old(self).index >= %d ==> r is Err && r->Err_0.kind_of() == ErrorKind::WrongLength && %s" % (k, rest("")), "final(self).index == old(self).index + 1"], **P12)
    al = " && ".join("old(self).%s is Some" % t for t in ts)
    F("<%s as Sink>::finish" % sink, ens=[
        "if %s { r is Ok && *final(self).slot == Some((%s,)) } else { r is Err && r->Err_0.kind_of() == ErrorKind::WrongLength && final(self).slot == old(self).slot }" % (al, ", ".join("old(self).%s->Some_0" % t for t in ts)),
        FUT], **P12)
    F("<%s as Deserialize>::deserialize_into" % ty, **P12)
    FEEDS[ty] = "exists|s: %s| #[trigger] owns(h, s) && s.index == 0 && %s && *s.slot == init && *final(s.slot) == fin" % (sink.replace(",", ", "), " && ".join("s.%s is None" % t for t in ts))

# --- arrays --------------------------------------------------------------------------
AR = "ArraySink<T,N>"
BUF = "final(self).buffer is Some && %s == buf_put(old(self).buffer->Some_0@, old(self).index as int, old(self).element)"
IDX = "final(self).index == idx_put(old(self).index as int, old(self).element)"
AFRAME = "final(self).slot == old(self).slot && final(self).is_seq == old(self).is_seq"
F(AR + "::flush", req=["array_ready(*old(self))"], ens=[BUF % "final(self).buffer->Some_0@", IDX, "final(self).element is None", AFRAME, "array_ready(*final(self))"], **P12)
F("<%s as Sink>::atom" % AR, ens=[
    "match atom { Atom::Bytes(b) => if !T::bytes_type() { unexpected(r) && %s } else if cow_bytes(b).len() != N { r is Err && r->Err_0.kind_of() == ErrorKind::WrongLength && %s } else { r is Ok && *final(self).slot is Some && (*final(self).slot)->Some_0@ == bytes_as::<T>(cow_bytes(b)) && %s && final(self).buffer == old(self).buffer && final(self).element == old(self).element && final(self).index == old(self).index && final(self).is_seq == old(self).is_seq }, _ => unexpected(r) && %s }" % (SAME, SAME, FUT, SAME)],
  props=["C19", "C12"], entry="T::bytes_type_ok();")
F("<%s as Sink>::seq" % AR, ens=["r is Ok", "final(self).is_seq", "final(self).slot == old(self).slot && final(self).buffer == old(self).buffer && final(self).element == old(self).element && final(self).index == old(self).index"], **P12)
F("<%s as Sink>::next_value" % AR, ens=[BUF % "final(self).buffer->Some_0@", IDX, AFRAME,
  "final(self).index < N ==> r is Ok && T::feeds(r->Ok_0, None, final(self).element)",
  "final(self).index >= N ==> r is Err && r->Err_0.kind_of() == ErrorKind::WrongLength && final(self).element is None"], **P12)
F("<%s as Sink>::finish" % AR, ens=[
  "!old(self).is_seq ==> r is Ok && " + SAME,
  "old(self).is_seq ==> ({ let n = idx_put(old(self).index as int, old(self).element); let b = buf_put(old(self).buffer->Some_0@, old(self).index as int, old(self).element); "
  "if n == N { r is Ok && *final(self).slot is Some && (forall|i: int| 0 <= i < N ==> b.dom().contains(i) && (#[trigger] (*final(self).slot)->Some_0@[i]) == b[i]) } else { r is Err && r->Err_0.kind_of() == ErrorKind::WrongLength && final(self).slot == old(self).slot } })",
  FUT], props=["C12"], also=["C19"])
LIVE = "array_live(*old(self)) ==> array_live(*final(self))"
for k in ("atom", "seq", "next_value", "finish"):
    FNS["<%s as Sink>::%s" % (AR, k)].ens.append(LIVE)
F(AR + "::vf_drop", req=["array_live(*old(self))"], ens=["has_drop::<T>() && old(self).buffer is Some ==> final(self).buffer is Some && (forall|i: int| !(#[trigger] final(self).buffer->Some_0@.dom().contains(i)))"],
  loops=[L(["vf_i <= vf_n", "vf_n <= N", "forall|i: int| #[trigger] vf_buf@.dom().contains(i) <==> vf_i <= i < vf_n"], dec="vf_n - vf_i")], **P12)
F("<[T;N] as Deserialize>::deserialize_into", props=["C12", "C19"])
FEEDS["[T;N]"] = "exists|s: ArraySink<T, N>| #[trigger] owns(h, s) && s.ready() && s.buffer is Some && s.element is None && s.index == 0 && array_live(s) && !s.is_seq && *s.slot == init && *final(s.slot) == fin"

SPECFNS = {  # spec functions added to impls
    "Sink for ArraySink<T,N>": "open spec fn ready(&self) -> bool { array_ready(*self) }",
}
for k in range(1, 13):
    ts = ["T%d" % i for i in range(13 - k, 13)]
    SPECFNS["Sink for Tuple%dTupleSink<%s>" % (k, ",".join(ts))] = "open spec fn ready(&self) -> bool { self.index <= %d }" % k

HEAD = '''#![allow(unused, dead_code, non_snake_case, non_camel_case_types, mismatched_lifetime_syntaxes)]
use vstd::prelude::*;
use vstd::std_specs::hash::*;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{BuildHasher, Hash};
use std::mem::take;
use std::ops::{Deref, DerefMut};
'''
GLOBAL = "global size_of usize == 8;\n"


def rule_casts(src, f, report):
    """R-float: casts to a floating point type in the arms of a match over an
    atom become calls of wrappers whose bodies are exactly these casts."""
    for n in f["nodes"]:
        if n["kind"] != "match":
            continue
        for a in n["arms"]:
            m = re.match(r"^Atom::(U64|I64|F64)\((\w+)\)$", a["pat_text"])
            if not m:
                continue
            for x in f["nodes"]:
                if x["kind"] == "cast" and x["ty"] in ("f32", "f64") and src.text(x["expr"]).strip() == m.group(2) and a["body"][0] <= x["span"][0] < a["body"][1]:
                    src.edit(x["span"][0], x["span"][1], "vf_%s_%s(%s)" % (x["ty"], m.group(1).lower(), m.group(2)))
                    report["rewrites"].append("R-float %s" % f["key"])


def rule_err_closures(src, f, report):
    """R-closure: `|| Error::new(K, ..)` states its own result (the body is unchanged)."""
    for n in f["nodes"]:
        if n["kind"] == "closure":
            t = src.text(n["span"])
            m = re.match(r"^\|\|\s*(?:\{\s*)?Error::new\((ErrorKind::\w+),", t)
            if m:
                a, b = n["span"]
                src.edit(a + 2, a + 2, " -> (vf_e: Error) ensures vf_e.kind_of() == %s { " % m.group(1))
                src.edit(b, b, " }")
                report["rewrites"].append("R-closure %s" % f["key"])


DEFAULTS = {"__private_is_bytes": ["C19"], "__private_initial_value": ["C24"]}


def default_methods(body, report, fns):
    """R-default: the defaults of Deserialize::{__private_is_bytes,
    __private_initial_value} are copied into every impl that does not override
    them (what the compiler does)."""
    s = parse_text(body, "deser")
    e = []
    for n, props in DEFAULTS.items():
        f = s.fn("Deserialize::" + n)
        text = s.text(f["span"])
        e.append((f["span"][0], f["span"][1], s.text(f["sig"]) + ";"))
        have = set(x["self_ty"] for x in s.fns if x["trait"] == "Deserialize" and x["name"] == n)
        for x in s.fns:
            if x["trait"] == "Deserialize" and x["name"] == "deserialize_into" and x["self_ty"] not in have:
                e.append((x["span"][0], x["span"][0], re.sub(r"#\[doc\(hidden\)\]", "", text) + "\n"))
                fns.setdefault("<%s as Deserialize>::%s" % (strip_lt(x["self_ty"]), n), C(props=props))
    d = s.data
    for a, b, t in sorted(e, reverse=True):
        d = d[:a] + t.encode() + d[b:]
    report["rewrites"].append("R-default " + ", ".join(DEFAULTS))
    return d.decode()


def sub1(t, a, b, report, rule, cnt=None):
    n = t.count(a)
    if n == 0 or (cnt and n != cnt):
        raise Drift("%s: pattern not found: %s" % (rule, a[:60]))
    report["rewrites"].append("%s x%d: %s" % (rule, n, " ".join(a.split())[:70]))
    return t.replace(a, b)


def rsub(t, a, b, report, rule):
    t, n = re.subn(a, b, t)
    if not n:
        raise Drift("%s: pattern not found: %s" % (rule, a[:60]))
    report["rewrites"].append("%s x%d" % (rule, n))
    return t


W = r"\s*"


def rewrite_text(t, report):
    t = rsub(t, r"\*\*self = ", "*self.deref_mut() = ", report, "R-deref **self is *DerefMut::deref_mut(self)")
    t = re.sub(r"(?:crate::de::)?SinkHandle::Borrowed\(", "SinkHandle::vf_borrowed(", t)
    report["rewrites"].append("R-handle SinkHandle::Borrowed(s) is vf_borrowed(s) (handles are opaque in this unit)")
    t = t.replace("crate::de::", "").replace("std::borrow::Cow", "Cow")
    m = re.search(r"match (\w+) \{\s*SinkHandle::Null\(_\) => (\w+),\s*\w+ =>", t)
    if not m or m.group(1) != m.group(2):
        raise Drift("R-handle: match on SinkHandle::Null not found")
    e = balanced(t, t.index("{", m.start()))
    t = t[:m.start()] + "if %s.vf_is_null() { %s } else { %s }" % (m.group(1), m.group(1), t[m.end():e - 1].strip().rstrip(",")) + t[e:]
    report["rewrites"].append("R-handle match on SinkHandle::Null is vf_is_null()")
    t = rsub(t, r"std::mem::transmute\((value\.into_owned\(\))\)", r"vf_bytes_as_vec::<T>(\1)", report, "R-transmute Vec<u8> to Vec<T> is vf_bytes_as_vec (requires T to be u8)")
    t = rsub(t, r"let mut rv = MaybeUninit::<\[T; N\]>::uninit\(\);\s*std::ptr::copy_nonoverlapping\(value\.as_ptr\(\) as \*const T,\s*rv\.as_mut_ptr\(\) as \*mut T, N\);\s*rv\.assume_init\(\)",
             "vf_bytes_as_array::<T, N>(&value)", report, "R-transmute N bytes to [T; N] is vf_bytes_as_array (requires T to be u8 and length N)")
    t = rsub(t, r"\[MaybeUninit<T>; N\]", "VfBuf<T, N>", report, "R-uninit [MaybeUninit<T>; N] is VfBuf<T, N>")
    t = rsub(t, r"(\w+)\[([\w.]+)\]\.write\((\w+)\)", r"\1.vf_write(\2, \3)", report, "R-uninit buffer[i].write(x) is vf_write (requires i < N)")
    t = rsub(t, r"MaybeUninit::uninit\(\)\.assume_init\(\)", "VfBuf::vf_uninit()", report, "R-uninit")
    t = rsub(t, r"\.as_ptr\(\)\.cast::<\[T; N\]>\(\)\.read\(\)", ".vf_read()", report, "R-uninit read of the whole buffer is vf_read (requires every element to be written)")
    return t


def array_drop(t, report):
    """R-drop: the array sink's Drop is an inherent function vf_drop; its
    `for x in &mut BUF[a..b] { BODY }` is a while loop over a..b in which dropping
    x in place is BUF.vf_drop_at(i) (requires that element to be there)."""
    m = re.search(r"impl\s*<[^>]*>\s+(?:\w+::)*Drop for\s+ArraySink<[^>]*>\s*\{", t)
    if not m:
        return t
    e = balanced(t, m.end() - 1)
    x = t[m.end():e]
    x = re.sub(r"\bfn drop\(", "fn vf_drop(", x)
    x = re.sub(r"\b(?:std::|core::)?(?:mem::)?needs_drop::<T>\(\)", "vf_needs_drop::<T>()", x)
    f = re.search(r"for (\w+) in &mut ([\w.]+)\[([^\]]*?)\.\.([^\]]*)\]\s*\{", x) or re.search(r"for (\w+) in ([\w.]+)\[([^\]]*?)\.\.([^\]]*)\]\s*\.iter_mut\(\)\s*\{", x)
    if f:
        b = balanced(x, f.end() - 1)
        v, buf, lo, hi = f.groups()
        body = x[f.end():b]
        body = re.sub(r"(?:std::|core::)?(?:ptr::)?drop_in_place\(%s\.as_mut_ptr\(\)\)|%s\.assume_init_drop\(\)" % (v, v), "vf_buf.vf_drop_at(vf_i)", body)
        x = x[:f.start()] + "{ let vf_n: usize = %s; let mut vf_i: usize = %s; let vf_buf = &mut *%s; while vf_i < vf_n { %s; vf_i += 1; } }" % (hi.strip() or "N", lo.strip() or "0", buf, body[:-1]) + x[b:]
    if not f or re.search(r"as_mut_ptr|assume_init|drop_in_place|iter_mut", x):
        return t  # another way to drop them: undecided
    report["rewrites"].append("R-drop impl Drop for ArraySink")
    return t[:m.start()] + "impl<'a, T, const N: usize> ArraySink<'a, T, N> {" + x + t[e:]


def add_spec_fns(src, report):
    """Ghost functions of the traits and their impls."""
    done = set()
    for f in src.fns:
        if f["in_trait"] == "Deserialize" and f["name"] == "deserialize_into":
            src.edit(f["span"][0], f["span"][0], "#[verifier::prophetic] spec fn feeds(h: SinkHandle<'_>, init: Option<Self>, fin: Option<Self>) -> bool;\n spec fn bytes_type() -> bool;\n spec fn initial() -> Option<Self>;\n proof fn bytes_type_ok() ensures Self::bytes_type() ==> is_u8::<Self>();\n", -30)
        if f["in_trait"] == "Sink" and f["name"] == "atom":
            src.edit(f["span"][0], f["span"][0], "open spec fn ready(&self) -> bool { true }\n", -30)
        if f["trait"] == "Deserialize" and f["name"] == "deserialize_into":
            ty = strip_lt(f["self_ty"])
            if ty not in FEEDS:
                raise Drift("no specification of the target type %s" % ty)
            isb = "true" if ty == "u8" else "false"
            src.edit(f["span"][0], f["span"][0], "#[verifier::prophetic] open spec fn feeds(h: SinkHandle<'_>, init: Option<Self>, fin: Option<Self>) -> bool { %s }\n open spec fn bytes_type() -> bool { %s }\n open spec fn initial() -> Option<Self> { %s }\n proof fn bytes_type_ok() { %s }\n" % (FEEDS[ty], isb, "Some(None)" if ty == "Option<T>" else "None", "ax_u8();" if ty == "u8" else ""), -30)
        if f["trait"] == "Sink":
            k = "Sink for " + strip_lt(f["self_ty"])
            if k in SPECFNS and k not in done:
                done.add(k)
                src.edit(f["span"][0], f["span"][0], SPECFNS[k] + "\n", -30)


def build(report):
    t = expanded("deser")
    de = module(t, ["de"])
    top = parse_text(without_modules(de), "deser::de")
    parts = []
    for i in top.items:
        if i["kind"] == "trait" and i["name"] in ("Deserialize", "Sink"):
            parts.append(top.text(i["span"]))
    f = top.fn("fail_unexpected")
    parts.append(top.text(f["span"]))
    ev = parse_text(module(t, ["event"]), "deser::event")
    ue = ev.fn("Atom::unexpected_error")
    parts.append("impl<'a> Atom<'a> { #[verifier::external_body] pub fn name(&self) -> &str { unimplemented!() }\n" + ev.text(ue["span"]) + "}")
    body = "\n".join(parts) + module(de, ["ignore"]) + module(de, ["impls"])
    body = macros(body, report, "deser")
    body = re.sub(r"(?m)^\s*use [^;]*;", "", body)
    body = rewrite_text(body, report)
    body = default_methods(body, report, FNS)
    body = hoist(body, report, "deser")
    body = opaque(body, ("descriptor", "expecting"), report, "deser")
    body = array_drop(body, report)
    s0 = parse_text(body, "deser")
    drop = [i for i in s0.items if i["kind"] == "impl" and re.search(r"\bDrop for\b", s0.text(i["span"])[:200])]
    d = s0.data
    for i in sorted(drop, key=lambda i: -i["span"][0]):
        report["dropped"].append("impl Drop: " + " ".join(s0.text(i["span"])[:60].split()))
        d = d[:i["span"][0]] + d[i["span"][1]:]
    src = parse_text(d.decode(), "deser")
    add_spec_fns(src, report)
    for i in src.items:
        if i["kind"] == "struct":
            ps = [x.split(":")[0].strip() for x in i["generics"].strip("<>").split(",")]
            ps = [x for x in ps if x and not x.startswith("'") and not x.startswith("const")]
            src.edit(i["span"][0], i["span"][0], "".join("#[verifier::reject_recursive_types(%s)] " % x for x in ps), -6)
    rule_vis(src, report)
    weave_all(src, FNS, report, [rule_casts, rule_err_closures], [f["key"] for f in src.fns if f["name"] in ("descriptor", "expecting")] + ["Atom::name"])
    body = src.render(0, len(src.data))
    return (HEAD + "verus! {\n" + GLOBAL + types(report) + spec("sink_prelude.rs") + spec("de_impls.rs") + spec("de_lemmas.rs") + "\n// ==== extracted ====\n" + body + "\n} // verus!\nfn main() {}\n")


if __name__ == "__main__":
    rep = new_report()
    open("/tmp/w/de_impls.rs", "w").write(build(rep))
    print(json.dumps({k: rep[k] for k in ("uncontracted", "missing", "drift", "undecided")}, indent=1))
