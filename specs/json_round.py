"""C08: the serializer's and the parser's specifications are inverse."""
from vlib.weave import *
from specs.core import types, spec, item_text

FNS = {}
THEOREMS = {"C08": ["lemma_document", "lemma_roundtrip"], "C07": ["lemma_document"], "C02": ["lemma_parsed_one"]}


def build(report):
    src = load("deser-json/src/ser.rs", set(), report)
    cs = item_text(src, "enum", "ContainerState")
    return ('''#![allow(unused, dead_code, non_snake_case)]
use vstd::prelude::*;
use std::borrow::Cow;
verus! {
''' + types(report) + spec("floats.rs") + spec("json_grammar.rs") + "pub " + cs + "\n" + spec("json_ser_spec.rs") + spec("json_ser_lemmas.rs")
            + spec("json_lemmas.rs").replace("broadcast use jl::json_lemmas;", "") + spec("events.rs") + spec("json_round_lemmas.rs") + "}\nfn main() {}\n")


if __name__ == "__main__":
    open("/tmp/w/json_round.rs", "w").write(build(new_report()))
