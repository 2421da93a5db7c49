from vlib.weave import *
from specs.core import types, spec

SRC = "deser-json/src/ser.rs"
UNCONTRACTED = []

B = "vstd::utf8::encode_utf8(value@)"
D = "vstd::utf8::encode_utf8(d)"

STRLITS = " ".join('reveal_strlit("%s"); assert("%s"@ =~= seq![%s]);' % (x, x, y) for x, y in [
    (r"\\b", r"'\\', 'b'"), (r"\\t", r"'\\', 't'"), (r"\\n", r"'\\', 'n'"), (r"\\f", r"'\\', 'f'"), (r"\\r", r"'\\', 'r'"),
    (r"\\\"", r"'\\', '\"'"), (r"\\\\", r"'\\', '\\'"), (r"\\u00", r"'\\', 'u', '0', '0'")])

FNS = {
    "<Serializer as Default>::default": C(ens=["r.out@ == Seq::<char>::empty()"], props=["C07"]),
    "Serializer::new": C(ens=["r.out@ == Seq::<char>::empty()"], props=["C07"]),
    "Serializer::serialize": C(
        req=["self.out@ == Seq::<char>::empty()"],
        ens=["match srun(trace_of(value)) { Some(s) => r is Ok && r->Ok_0@ == s.out || r is Err && driver_error(r->Err_0), None => r is Err }"],
        attrs="#[verifier::exec_allows_no_decreases_clause]",
        entry_raw="let ghost tr = trace_of(value); let ghost mut n: int = 0; broadcast use {sl::lemma_run_push, sl::lemma_run_all, sl::lemma_out_ext, core_std, ax_display_f64};",
        loops=[L(["tr == trace_of(value)", "driver.trace() == tr", "driver.seen() == n", "0 <= n <= tr.len()",
                  "srun(tr.take(n)) == Some(mk(container_stack@, vf_self.out@))"],
                 dec="tr.len() - n",
                 start="lemma_run_push(tr, n); n = n + 1; if srun(tr.take(n)) is None { lemma_run_none(tr, n); }")],
        props=["C07", "C08"]),
    "Serializer::write_str": C(ens=["final(self).out@ == old(self).out@ + s@"], props=["C07"], also=["C06", "C08"]),
    "Serializer::write_char": C(ens=["final(self).out@ == old(self).out@.push(c)"], props=["C07"], also=["C06", "C08"]),
    "Serializer::write_escaped_str": C(
        ens=["final(self).out@ == old(self).out@ + lit(value@)"],
        entry_raw="let ghost o0 = self.out@; let ghost mut p: Seq<char> = seq![]; let ghost mut d: Seq<char> = value@; ",
        entry="lemma_esc_start(value@); " + STRLITS,
        loops=[L(["bytes@ == %s" % B, "esc_inv(value@, p, d, start as int, vf_i as int)", "self.out@ == o0 + seq!['\"'] + esc(p)"],
                 dec="bytes@.len() - vf_i",
                 start="let pd = lemma_esc_byte(value@, p, d, start as int, i as int); p = pd.0; d = pd.1; lemma_nibbles(byte);",
                 after="proof { lemma_esc_end(value@, p, d, start as int); }")],
        props=["C06"], also=["C07", "C08"]),
    "to_string": C(ens=["match srun(trace_of(value)) { Some(s) => r is Ok && r->Ok_0@ == s.out || r is Err && driver_error(r->Err_0), None => r is Err }"], props=["C07", "C08"]),
}

FNS["static ESCAPE"] = C(props=["C06"], opt=True)
FNS["static HEX_DIGITS"] = C(props=["C06"], opt=True)
ESC = ("forall|i: int| 0 <= i < 256 ==> (#[trigger] ESCAPE@[i]) == (if i == 8 { 0x62u8 } else if i == 9 { 0x74u8 } else if i == 10 { 0x6eu8 } else if i == 12 { 0x66u8 } "
       "else if i == 13 { 0x72u8 } else if i == 0x22 { 0x22u8 } else if i == 0x5c { 0x5cu8 } else if i < 0x20 { 0x75u8 } else { 0u8 })")
HEX = "forall|i: int| 0 <= i < 16 ==> (#[trigger] HEX_DIGITS@[i]) as char == hex_char(i)"

HEAD = '''#![allow(unused, dead_code, non_snake_case)]
use vstd::prelude::*;
use std::borrow::Cow;
'''


SPEEDUPS = '''
// Assumed contracts of the crates behind the `speedups` feature.
mod itoa {
    use super::*;
    pub trait Integer { spec fn int_of(&self) -> int; }
    impl Integer for u64 { open spec fn int_of(&self) -> int { *self as int } }
    impl Integer for i64 { open spec fn int_of(&self) -> int { *self as int } }
    #[verifier::external_body]
    pub struct Buffer { _p: () }
    impl Buffer {
        #[verifier::external_body]
        pub fn new() -> (r: Buffer) { unimplemented!() }
        #[verifier::external_body]
        pub fn format<I: Integer>(&mut self, i: I) -> (r: &str) ensures r@ == int_text(i.int_of()) { unimplemented!() }
    }
}
mod ryu {
    use super::*;
    #[verifier::external_body]
    pub struct Buffer { _p: () }
    impl Buffer {
        #[verifier::external_body]
        pub fn new() -> (r: Buffer) { unimplemented!() }
        #[verifier::external_body]
        pub fn format_finite(&mut self, x: f64) -> (r: &str) requires is_fin(x), ensures r@ == float_text(x) { unimplemented!() }
    }
}
'''


def build(report, features=frozenset()):
    src = desugar_mut_self(load(SRC, features, report), report)
    rewrite_static(src, "ESCAPE", ESC, report)
    hx = hoist_static(src, "HEX_DIGITS", HEX, report)
    rule_vis(src, report)
    weave_all(src, FNS, report, [rule_common, rule_orlet, rule_enumerate, rule_str_slice, rule_float_arms], UNCONTRACTED)
    drop_items(src, lambda i: i["kind"] == "use")
    body = src.render(0, len(src.data))
    return (HEAD + "verus! {\n" + types(report) + spec("json_ser_spec.rs") + spec("json_ser_ext.rs") + spec("json_ser_lemmas.rs") + (SPEEDUPS if "speedups" in features else "") + hx
            + "\n// ==== extracted ====\n" + body + "\n} // verus!\nfn main() {}\n")


if __name__ == "__main__":
    rep = new_report()
    open("/tmp/w/json_ser.rs", "w").write(build(rep))
    print(json.dumps({k: rep[k] for k in ("uncontracted", "missing", "drift", "undecided")}, indent=1))
