"""The JSON serializer as compiled with the `speedups` feature."""
from vlib.weave import *
from specs import json_ser as base

SRC, FNS, UNCONTRACTED = base.SRC, base.FNS, base.UNCONTRACTED


def build(report):
    return base.build(report, {"speedups"})


if __name__ == "__main__":
    open("/tmp/w/json_ser_fast.rs", "w").write(build(new_report()))
