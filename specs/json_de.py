from vlib.weave import *
from specs.core import types, spec
from specs.conv import assumed_from

SRC = "deser-json/src/de.rs"
UNCONTRACTED = []
FRAME = "final(self).input == old(self).input"
INP = "old(self).input@"
P0 = "old(self).pos as int"
WF = "old(self).pos <= old(self).input@.len()"
WF2 = "final(self).pos <= final(self).input@.len()"
GEOM = [FRAME, WF2, "final(self).pos >= old(self).pos"]
SI = "self.input@, self.pos as int"
LINV = ["self.input == old(self).input", "self.pos <= self.input@.len()", "self.pos >= old(self).pos"]

def m(x):
    return (x.replace("$EXPD", "(if at($INP, old(self).pos + 1) == 0x2b || at($INP, old(self).pos + 1) == 0x2d { old(self).pos + 2 } else { old(self).pos + 1 })")
            .replace("$INP", INP).replace("$SI", SI).replace("$P0", P0))


def num_post(spec, ok):
    return ["match %s { Some((v, e)) => r is Ok && %s && final(self).pos == e, None => r is Err }" % (spec, ok)]

TOKV = "tok(r->Ok_0) == Tok::Scalar(v)"
F64V = "v == Ev::F64(r->Ok_0)"
DIGLOOP = lambda extra, dec="self.input@.len() - self.pos": None

def ghost_after_call(method, code):
    """Ghost bookkeeping after every call of self.<method>() in a function."""
    def h(src, f):
        for n in f["nodes"]:
            if n["kind"] == "mcall" and n["method"] == method and n["recv_text"] == "self":
                src.edit(n["span"][0], n["span"][0], "{ let vf_r = ")
                src.edit(n["span"][1], n["span"][1], "; proof { %s } vf_r }" % code)
    return h


FNS = {
    "Deserializer::new": C(ens=["r.input == input", "r.pos == 0"], props=["C02"], also=["C01"]),
    "Deserializer::deserialize": C(req=[WF], ens=["r is Ok ==> doc(%s, %s, Seq::empty()) is Some" % (INP, P0), FRAME], props=["C02"], also=["C01"]),
    "Deserializer::next": C(req=[WF], ens=GEOM + [
        "old(self).pos < %s.len() ==> r == Some(%s[%s]) && final(self).pos == old(self).pos + 1" % (INP, INP, P0),
        "old(self).pos == %s.len() ==> r is None && final(self).pos == old(self).pos" % INP,
        "final(self).buffer == old(self).buffer"], props=["C01", "C02"], also=["C03", "C04", "C05"]),
    "Deserializer::next_or_nul": C(req=[WF], ens=GEOM + [
        "r == at(%s, %s)" % (INP, P0),
        "old(self).pos < %s.len() ==> final(self).pos == old(self).pos + 1" % INP,
        "old(self).pos == %s.len() ==> final(self).pos == old(self).pos" % INP,
        "final(self).buffer == old(self).buffer"], props=["C01", "C02", "C04"], also=["C03", "C05"]),
    "Deserializer::peek": C(req=[WF], ens=[
        "*final(self) == *old(self)",
        "r == if old(self).pos < %s.len() { Some(%s[%s]) } else { None }" % (INP, INP, P0)], props=["C01", "C02"], also=["C03", "C04", "C05"]),
    "Deserializer::peek_or_nul": C(req=[WF], ens=[
        "*final(self) == *old(self)", "r == at(%s, %s)" % (INP, P0)], props=["C01", "C02", "C04"], also=["C05"]),
    "Deserializer::bump": C(req=["old(self).pos < old(self).input@.len()"], ens=GEOM + [
        "final(self).pos == old(self).pos + 1", "final(self).buffer == old(self).buffer"], props=["C01", "C02"], also=["C03", "C04", "C05"]),
    "Deserializer::parse_whitespace": C(req=[WF], ens=GEOM + [
        "final(self).pos == skip_ws(%s, %s)" % (INP, P0),
        "r == if final(self).pos < %s.len() { Some(%s[final(self).pos as int]) } else { None }" % (INP, INP)],
        loops=[L(LINV + ["skip_ws(%s, %s) == skip_ws(%s)" % (INP, P0, SI)], dec="self.input@.len() - self.pos")],
        props=["C01", "C02"], also=[]),
    "Deserializer::parse_ident": C(req=[WF], ens=GEOM + [
        "r is Ok <==> has(%s, %s, ident@)" % (INP, P0),
        "r is Ok ==> final(self).pos == old(self).pos + ident@.len()"],
        props=["C01", "C02"], also=[],
        loops=[L(LINV + ["self.pos == old(self).pos + it.index()", "forall|k: int| 0 <= k < it.index() ==> %s[%s + k] == ident@[k]" % (INP, P0)])]),
    "Deserializer::next_or_eof": C(req=[WF], ens=GEOM + [
        "old(self).pos < %s.len() ==> r == Ok::<u8, Error>(%s[%s]) && final(self).pos == old(self).pos + 1" % (INP, INP, P0),
        "old(self).pos == %s.len() ==> r is Err" % INP,
        "final(self).buffer == old(self).buffer"], props=["C01", "C03"], also=["C02"]),
    "Deserializer::decode_hex_escape": C(entry="reveal(hex4); reveal_with_fuel(hex_val, 5);", req=[WF], ens=GEOM + [
        "final(self).buffer == old(self).buffer",
        "match hex4(%s, %s) { Some(h) => r is Ok && r->Ok_0 as int == h && final(self).pos == old(self).pos + 4, None => r is Err }" % (INP, P0)],
        loops=[L(LINV + ["self.buffer == old(self).buffer", "self.pos == old(self).pos + it.index()", "it.index() <= 4",
            "it.index() == 0 ==> n == 0", "it.index() == 1 ==> n < 16", "it.index() == 2 ==> n < 256", "it.index() == 3 ==> n < 4096",
            m("hex_val($INP, $P0, 4, 0) == hex_val($SI, 4 - it.index(), n as int)")])],
        props=["C01", "C03"], also=["C02"]),
    "Deserializer::parse_escape": C(entry="reveal(escape);", req=[WF], ens=GEOM + [
        "match escape(%s, %s) { Some((c, e)) => r is Ok && final(self).buffer@ == old(self).buffer@ + utf8(c) && final(self).pos == e && e > old(self).pos, None => r is Err }" % (INP, P0)],
        props=["C01", "C03"], also=["C02"]),
    "Deserializer::parse_str": C(entry_raw="broadcast use jl::str_lemmas;", req=[WF], ens=GEOM + [
        "match str_lit(%s, %s) { Some((t, e)) => r is Ok && r->Ok_0@ == t && final(self).pos == e, None => r is Err }" % (INP, P0)],
        loops=[
            L(LINV + ["old(self).pos <= start == self.pos",
               m("str_body($INP, $P0, seq![]) == str_at(self.input@, start as int, self.pos as int, self.buffer@)")],
              dec="self.input@.len() - self.pos"),
            L(LINV + ["old(self).pos <= start <= self.pos",
               m("str_body($INP, $P0, seq![]) == str_at(self.input@, start as int, self.pos as int, self.buffer@)")],
              dec="self.input@.len() - self.pos"),
        ],
        props=["C01", "C03"], also=["C02"]),
    "Deserializer::parse_str::result": C(ens=[
        "r is Ok <==> vstd::utf8::valid_utf8(bytes@)",
        "r is Ok ==> r->Ok_0@ == vstd::utf8::decode_utf8(bytes@)"], props=["C03"], also=["C01", "C02"]),

    "Deserializer::parse_integer": C(entry="reveal(num_at); reveal(num_tail); reveal_with_fuel(dec_val, 2); reveal_with_fuel(take_digits, 2);", 
        req=[WF, "is_digit(first_digit) ==> old(self).pos >= 1 && at(%s, old(self).pos - 1) == first_digit" % INP],
        ens=GEOM + ["!is_digit(first_digit) ==> r is Err",
            "is_digit(first_digit) ==> " + num_post("num_at(%s, !nonnegative, old(self).pos - 1)" % INP, TOKV)[0]],
        loops=[L(LINV + [
            "digits_end(%s, %s) == digits_end(%s)" % (INP, P0, SI),
            "dec_val(%s, old(self).pos - 1, digits_end(%s), 0) == dec_val(%s, digits_end(%s), res as int)" % (INP, SI, SI, SI),
            "take_digits(%s, old(self).pos - 1, digits_end(%s), 0, 0) == take_digits(%s, digits_end(%s), res as int, self.pos - old(self).pos + 1)" % (INP, SI, SI, SI)],
            dec="self.input@.len() - self.pos")],
        props=["C01", "C04"], also=["C02", "C05"]),
    "Deserializer::parse_long_integer": C(
        req=[WF, "exponent >= 0"],
        ens=GEOM + num_post("num_tail(%s, !nonnegative, significand as int, sat32(exponent + (digits_end(%s, %s) - old(self).pos)), digits_end(%s, %s))" % (INP, INP, P0, INP, P0), F64V),
        loops=[L(LINV + ["exponent >= 0",
            "digits_end(%s, %s) == digits_end(%s)" % (INP, P0, SI),
            "exponent as int == sat32(old_exponent + (self.pos - old(self).pos))"],
            dec="self.input@.len() - self.pos")],
        entry="reveal(num_tail);", props=["C01", "C05"], also=["C02", "C04"]),
    "Deserializer::parse_number": C(entry="reveal(num_tail);", 
        req=[WF],
        ens=GEOM + num_post("if at(%s, %s) == 0x2e || is_exp(at(%s, %s)) { num_tail(%s, !nonnegative, significand as int, 0, %s) } else { Some((plain_int(!nonnegative, significand as int), %s)) }" % (INP, P0, INP, P0, INP, P0, P0), TOKV),
        props=["C01", "C04", "C05"], also=["C02"]),
    "Deserializer::parse_decimal": C(entry="reveal(num_frac);", 
        req=["old(self).pos < old(self).input@.len()"],
        ens=GEOM + num_post("num_frac(%s, !nonnegative, significand as int, exponent as int, %s)" % (INP, P0), F64V),
        loops=[
            L(LINV + ["self.pos > old(self).pos",
                "digits_end(%s, %s + 1) == digits_end(%s)" % (INP, P0, SI)],
              exc=["take_digits(%s, %s + 1, digits_end(%s), old_significand as int, 0) == take_digits(%s, digits_end(%s), significand as int, self.pos - old(self).pos - 1)" % (INP, P0, SI, SI, SI),
                "at_least_one_digit == (self.pos > old(self).pos + 1)",
                "exponent as int == sat32(old_exponent - (self.pos - old(self).pos - 1))"],
              ens=["self.pos == digits_end(%s, %s + 1)" % (INP, P0),
                "at_least_one_digit == (self.pos > old(self).pos + 1)",
                "significand as int == take_digits(%s, %s + 1, self.pos as int, old_significand as int, 0).0" % (INP, P0),
                "exponent as int == sat32(old_exponent - take_digits(%s, %s + 1, self.pos as int, old_significand as int, 0).1)" % (INP, P0)],
              dec="self.input@.len() - self.pos"),
            L(LINV + ["self.pos > old(self).pos + 1", "digits_end(%s, %s + 1) == digits_end(%s)" % (INP, P0, SI)],
              dec="self.input@.len() - self.pos")],
        props=["C01", "C05"], also=["C02", "C04"]),
    "Deserializer::parse_exponent": C(entry="reveal(num_exp);", 
        req=["old(self).pos < old(self).input@.len()"],
        ens=GEOM + num_post("num_exp(%s, !nonnegative, significand as int, starting_exp as int, %s)" % (INP, P0), F64V),
        loops=[L(LINV + [m(x) for x in ["exp >= 0", "self.pos > $EXPD",
            "digits_end($INP, $EXPD) == digits_end($SI)",
            "dec_val($INP, $EXPD, digits_end($SI), 0) == dec_val($SI, digits_end($SI), exp as int)"]],
            dec="self.input@.len() - self.pos")],
        props=["C01", "C05"], also=["C02", "C04"]),
    "Deserializer::parse_exponent_overflow": C(
        req=[WF],
        ens=GEOM + num_post("if significand != 0 && positive_exp { None } else { Some((Ev::F64(fsign(nonnegative, fzero())), digits_end(%s, %s))) }" % (INP, P0), F64V),
        loops=[L(LINV + ["digits_end(%s, %s) == digits_end(%s)" % (INP, P0, SI)], dec="self.input@.len() - self.pos")],
        props=["C01", "C05"], also=["C02"]),
    "f64_from_parts": C(
        ens=["match scale(fcast(significand), exponent as int) { Some(f) => r is Ok && r->Ok_0 == fsign(nonnegative, f), None => r is Err }"],
        loops=[L(["scale(fcast(significand), old_exponent as int) == scale(f, exponent as int)"], dec="(if exponent < 0 { -(exponent as int) } else { 0 })")],
        props=["C01", "C05"], also=["C02"]),
    "Deserializer::next_token": C(entry="reveal(lex); reveal(num_at);", 
        req=[WF],
        ens=GEOM + ["match lex(%s, %s) { Some((t, e)) => r is Ok && tok(r->Ok_0) == t && final(self).pos == e && e > old(self).pos, None => r is Err }" % (INP, P0)],
        props=["C01", "C02"], also=["C03", "C04", "C05"]),
    "Deserializer::deserialize_into": C(
        req=[WF, "!old(driver).refused()"],
        ens=[FRAME,
            "r is Ok ==> doc(%s, %s, old(driver).log()) == Some(final(driver).log())" % (INP, P0),
            "r is Err ==> doc(%s, %s, old(driver).log()) is None || final(driver).refused()" % (INP, P0)],
        loops=[L(["inp == old(self).input@", "after_borrow(self).input@ == inp", "after_borrow(self).input == old(self).input", "after_borrow(self).pos == gp",
                  "0 <= tp < gp <= inp.len()", "known(inp, tp, tok(token), gp)",
                  "!driver.refused()",
                  "doc(%s, %s, old(driver).log()) == resume(inp, tp, stack@, driver.log())" % (INP, P0)],
                
                 dec="inp.len() - tp")],
        entry_raw="let ghost inp = self.input@; let ghost mut gp = self.pos as int; let ghost mut tp = gp; broadcast use steps;",
        entry="lemma_start(inp, gp, driver.log());",
        hints=[ghost_after_call("next_token", "reveal(known); reveal(notok); tp = gp; match lex(inp, tp) { Some((t, e)) => { gp = e; assert(known(inp, tp, t, e)); }, None => { assert(notok(inp, tp)); } }")],
        props=["C01", "C02"], also=[]),
    "from_str": C(ens=["r is Ok ==> doc(vstd::utf8::encode_utf8(s@), 0, Seq::empty()) is Some"], props=["C02"], also=["C01"]),
}

HEAD = '''#![allow(unused, dead_code, non_snake_case)]
use vstd::prelude::*;
use std::str;
use std::borrow::Cow;
'''

TOKSPEC = '''
pub open spec fn tok(t: Token) -> Tok {
    match t {
        Token::Null => Tok::Scalar(Ev::Null),
        Token::Bool(b) => Tok::Scalar(Ev::Bool(b)),
        Token::Str(s) => Tok::Scalar(Ev::Str(s@)),
        Token::I64(x) => Tok::Scalar(Ev::I64(x)),
        Token::U64(x) => Tok::Scalar(Ev::U64(x)),
        Token::F64(x) => Tok::Scalar(Ev::F64(x)),
        Token::SeqStart => Tok::SeqStart,
        Token::SeqEnd => Tok::SeqEnd,
        Token::MapStart => Tok::MapStart,
        Token::MapEnd => Tok::MapEnd,
        Token::Comma => Tok::Comma,
        Token::Colon => Tok::Colon,
    }
}
'''


RESUME = """
pub open spec fn open_of(c: ContainerState) -> Open {
    match c { ContainerState::Map { .. } => Open::Map, ContainerState::Seq { .. } => Open::Seq }
}
pub open spec fn opens(st: Seq<ContainerState>) -> Seq<Open> { Seq::new(st.len(), |i: int| open_of(st[i])) }

pub broadcast proof fn lemma_opens(st: Seq<ContainerState>)
    requires st.len() > 0,
    ensures (#[trigger] opens(st)).drop_last() == opens(st.drop_last()), opens(st).last() == open_of(st.last()), opens(st).len() == st.len(),
{ assert(opens(st).drop_last() =~= opens(st.drop_last())); }

pub broadcast proof fn lemma_opens_push(st: Seq<ContainerState>, c: ContainerState)
    ensures opens(#[trigger] st.push(c)).drop_last() == opens(st),
{ assert(opens(st.push(c)).drop_last() =~= opens(st)); }


pub broadcast proof fn lemma_seq_push(st: Seq<ContainerState>, c: ContainerState)
    ensures (#[trigger] st.push(c)).drop_last() == st,
{ assert(st.push(c).drop_last() =~= st); }
pub broadcast proof fn lemma_seq_update(st: Seq<ContainerState>, i: int, c: ContainerState)
    requires i == st.len() - 1, i >= 0,
    ensures (#[trigger] st.update(i, c)).drop_last() == st.drop_last(), opens(st.update(i, c)) == if open_of(c) == open_of(st.last()) { opens(st) } else { opens(st.update(i, c)) },
{ assert(st.update(i, c).drop_last() =~= st.drop_last());
  if open_of(c) == open_of(st.last()) { assert(opens(st.update(i, c)) =~= opens(st)); } }

/// What is left to parse: a value is expected at i.
#[verifier::opaque]
pub open spec fn rv(s: Seq<u8>, i: int, st: Seq<ContainerState>, acc: Seq<Ev>) -> Option<Seq<Ev>> {
    rest_of(s, opens(st), p_value(s, i, acc))
}
/// A key is expected at i.
#[verifier::opaque]
pub open spec fn rk(s: Seq<u8>, i: int, st: Seq<ContainerState>, acc: Seq<Ev>) -> Option<Seq<Ev>> {
    rest_of(s, opens(st.drop_last()), p_member(s, i, acc))
}
/// A colon is expected at i.
#[verifier::opaque]
pub open spec fn rc(s: Seq<u8>, i: int, st: Seq<ContainerState>, acc: Seq<Ev>) -> Option<Seq<Ev>> {
    match lex(s, i) {
        Some((Tok::Colon, e)) => if i < e <= s.len() { rv(s, e, st, acc) } else { None },
        _ => None,
    }
}
/// A value has just ended at i.
#[verifier::opaque]
pub open spec fn rr(s: Seq<u8>, i: int, st: Seq<ContainerState>, acc: Seq<Ev>) -> Option<Seq<Ev>> {
    rest(s, opens(st), i, acc)
}
/// What the parser still has to read, given its stack and that the current
/// token starts at i.
#[verifier::opaque]
pub open spec fn resume(s: Seq<u8>, i: int, st: Seq<ContainerState>, acc: Seq<Ev>) -> Option<Seq<Ev>> {
    if st.len() == 0 { rv(s, i, st, acc) }
    else {
        match st.last() {
            ContainerState::Seq { first } => rest_of(s, opens(st.drop_last()), p_elements(s, i, first, acc)),
            ContainerState::Map { first, key_pos } =>
                if key_pos { rest_of(s, opens(st.drop_last()), p_members(s, i, first, acc)) }
                else { rv(s, i, st, acc) },
        }
    }
}
/// The token at i is t and ends at e (used as a trigger only).
#[verifier::opaque]
pub open spec fn known(s: Seq<u8>, i: int, t: Tok, e: int) -> bool {
    0 <= i < e <= s.len() && lex(s, i) == Some((t, e))
}
/// There is no token at i.
#[verifier::opaque]
pub open spec fn notok(s: Seq<u8>, i: int) -> bool { 0 <= i <= s.len() && lex(s, i) is None }

pub broadcast proof fn step_value(s: Seq<u8>, i: int, st: Seq<ContainerState>, acc: Seq<Ev>, t: Tok, e: int)
    requires known(s, i, t, e),
    ensures #![trigger rv(s, i, st, acc), known(s, i, t, e)] rv(s, i, st, acc) == match t {
            Tok::Scalar(v) => rr(s, e, st, acc.push(v)),
            Tok::SeqStart => resume(s, e, st.push(ContainerState::Seq { first: true }), acc.push(Ev::SeqStart)),
            Tok::MapStart => resume(s, e, st.push(ContainerState::Map { first: true, key_pos: true }), acc.push(Ev::MapStart)),
            _ => None,
        },
{
    reveal(known); reveal(rv); reveal(rk); reveal(rc); reveal(rr); reveal(resume);
    lemma_seq_push(st, ContainerState::Seq { first: true });
    lemma_seq_push(st, ContainerState::Map { first: true, key_pos: true });
}

pub broadcast proof fn step_key(s: Seq<u8>, i: int, st: Seq<ContainerState>, acc: Seq<Ev>, t: Tok, e: int)
    requires known(s, i, t, e), st.len() > 0, st.last() is Map,
    ensures #![trigger rk(s, i, st, acc), known(s, i, t, e)] rk(s, i, st, acc) == match t {
        Tok::Scalar(Ev::Str(k)) => rc(s, e, st, acc.push(Ev::Str(k))),
        _ => None,
    },
{
    reveal(known); reveal(rv); reveal(rk); reveal(rc); reveal(rr); reveal(resume);
    lemma_opens(st);
    match lex(s, i) {
        Some((Tok::Scalar(Ev::Str(k)), e)) => { match lex(s, e) { Some((_, e2)) => { if e2 > i { lemma_value_end(s, e2, acc.push(Ev::Str(k))); } }, None => {} } }
        _ => {}
    }
}

pub broadcast proof fn step_colon(s: Seq<u8>, i: int, st: Seq<ContainerState>, acc: Seq<Ev>, t: Tok, e: int)
    requires known(s, i, t, e),
    ensures #![trigger rc(s, i, st, acc), known(s, i, t, e)] rc(s, i, st, acc) == if t is Colon {
            rv(s, e, if st.len() > 0 && st.last() is Map { st.drop_last().push(ContainerState::Map { first: false, key_pos: false }) } else { st }, acc) } else { None },
{
    reveal(known); reveal(rc); reveal(rv);
    if st.len() > 0 && st.last() is Map { assert(opens(st.drop_last().push(ContainerState::Map { first: false, key_pos: false })) =~= opens(st)); }
}

pub broadcast proof fn step_after(s: Seq<u8>, i: int, st: Seq<ContainerState>, acc: Seq<Ev>)
    requires 0 <= i <= s.len(),
    ensures #![trigger rr(s, i, st, acc)]
        rr(s, i, st, acc) == if st.len() == 0 { if skip_ws(s, i) >= s.len() { Some(acc) } else { None } }
            else { resume(s, i, st.drop_last().push(match st.last() { ContainerState::Map { .. } => (ContainerState::Map { first: false, key_pos: true }), ContainerState::Seq { .. } => (ContainerState::Seq { first: false }) }), acc) },
{
    reveal(rv); reveal(rk); reveal(rr); reveal(resume);
    if st.len() > 0 { lemma_opens(st);
        lemma_seq_push(st.drop_last(), ContainerState::Map { first: false, key_pos: true });
        lemma_seq_push(st.drop_last(), ContainerState::Seq { first: false }); }
}

pub broadcast proof fn step_resume(s: Seq<u8>, i: int, st: Seq<ContainerState>, acc: Seq<Ev>, t: Tok, e: int)
    requires known(s, i, t, e),
    ensures #![trigger resume(s, i, st, acc), known(s, i, t, e)] resume(s, i, st, acc) ==
        if st.len() == 0 { rv(s, i, st, acc) } else { match st.last() {
            ContainerState::Seq { first } =>
                if t is SeqEnd { rr(s, e, st.drop_last(), acc.push(Ev::SeqEnd)) }
                else if first { rv(s, i, st, acc) }
                else if t is Comma { rv(s, e, st, acc) }
                else { None },
            ContainerState::Map { first, key_pos } =>
                if !key_pos { rv(s, i, st, acc) }
                else if t is MapEnd { rr(s, e, st.drop_last(), acc.push(Ev::MapEnd)) }
                else if first { rk(s, i, st, acc) }
                else if t is Comma { rk(s, e, st, acc) }
                else { None },
        } },
{
    reveal(known); reveal(rv); reveal(rk); reveal(rr); reveal(resume);
    if st.len() > 0 {
        lemma_opens(st);
        lemma_value_end(s, i, acc);
        lemma_value_end(s, e, acc);
    }
}

/// Nothing can be read where there is no token.
pub broadcast proof fn step_none(s: Seq<u8>, i: int, st: Seq<ContainerState>, acc: Seq<Ev>)
    requires notok(s, i),
    ensures
        #![trigger rv(s, i, st, acc), notok(s, i)] #![trigger rk(s, i, st, acc), notok(s, i)]
        #![trigger rc(s, i, st, acc), notok(s, i)] #![trigger resume(s, i, st, acc), notok(s, i)]
        rv(s, i, st, acc) is None, rk(s, i, st, acc) is None, rc(s, i, st, acc) is None, resume(s, i, st, acc) is None,
{ reveal(notok); reveal(rv); reveal(rk); reveal(rc); reveal(rr); reveal(resume); }

pub broadcast proof fn step_ext(s: Seq<u8>, i: int, st: Seq<ContainerState>, st2: Seq<ContainerState>, acc: Seq<Ev>)
    requires st =~= st2,
    ensures #![trigger resume(s, i, st, acc), resume(s, i, st2, acc)] st == st2,
{ }

pub broadcast proof fn step_ext_v(s: Seq<u8>, i: int, st: Seq<ContainerState>, st2: Seq<ContainerState>, acc: Seq<Ev>)
    requires st =~= st2,
    ensures #![trigger rv(s, i, st, acc), rv(s, i, st2, acc)] st == st2,
{ }

pub proof fn lemma_start(s: Seq<u8>, i: int, acc: Seq<Ev>)
    requires 0 <= i <= s.len(),
    ensures doc(s, i, acc) == resume(s, i, Seq::empty(), acc),
{
    reveal(rv); reveal(rk); reveal(rr); reveal(resume);
    assert(opens(Seq::<ContainerState>::empty()) =~= Seq::<Open>::empty());
}
pub broadcast group steps { step_value, step_key, step_colon, step_after, step_resume, step_none, step_ext, step_ext_v }
"""


FNS["static ESCAPE"] = C(props=["C03"], opt=True)
FNS["static POW10"] = C(props=["C05"], opt=True)


def build(report):
    src = load(SRC, set(), report)
    rewrite_static(src, "ESCAPE", "forall|i: int| 0 <= i < 256 ==> ESCAPE@[i] == (i < 0x20 || i == 0x22 || i == 0x5c)", report)
    rewrite_static(src, "POW10", "forall|i: int| 0 <= i < 309 ==> POW10@[i] == pow10(i)", report, "reveal(pow10);")
    rule_vis(src, report)
    weave_all(src, FNS, report, [rule_common, rule_float], UNCONTRACTED)
    drop_items(src, lambda i: i["kind"] == "use")
    body = src.render(0, len(src.data))
    macros = [src.text(i["span"]) for i in src.items if i["kind"] == "macro_rules"]
    return HEAD + "verus! {\n" + types(report) + "pub mod jspec {\nuse vstd::prelude::*; use super::*;\n" + spec("json_grammar.rs") + spec("floats.rs") + "}\npub use jspec::*;\n" + spec("std_chars.rs") + spec("json_ext.rs") + assumed_from(["bool", "u64", "i64", "f64", "&str"]) + spec("json_lemmas.rs") + TOKSPEC + RESUME + "\n// ==== extracted ====\n" + body + "\n} // verus!\nfn main() {}\n"


if __name__ == "__main__":
    rep = new_report()
    open("/tmp/w/json_de.rs", "w").write(build(rep))
    print(json.dumps({k: rep[k] for k in ("uncontracted", "missing", "drift", "undecided")}, indent=1))
