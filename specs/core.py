"""Prelude shared by the units: the event types, extracted from /repo."""
from vlib.weave import *


def spec(name):
    return open(os.path.join(VERIF, "specs", name)).read()


def item_text(src, kind, name):
    """Source of an item without its attributes and documentation."""
    it = [i for i in src.items if i["kind"] == kind and i["name"] == name]
    if len(it) != 1:
        raise Drift("%s %s not found in %s" % (kind, name, src.path))
    i = it[0]
    t = src.text(i["span"])
    base = i["span"][0]
    out, pos = [], base
    # attributes of the item and of its parts (doc comments are attributes)
    for a, b in sorted([(x["span"][0], x["span"][1]) for x in i["attrs"]]):
        out.append(src.data[pos:a].decode())
        pos = b
    out.append(src.data[pos:i["span"][1]].decode())
    t = "".join(out)
    t = re.sub(r"(?m)^\s*///.*$", "", t)
    t = re.sub(r"(?m)^\s*#\[(?!verifier)[^\]]*\]\s*$", "", t)
    return t.strip()


def types(report):
    """Ev, Atom, Event, ErrorKind and Error."""
    e = load("deser/src/event.rs", set(), report)
    k = load("deser/src/error.rs", set(), report)
    report["rewrites"].append("R-attr attributes and documentation dropped from Atom, Event, ErrorKind")
    return (spec("core_std.rs") + spec("core_ev.rs") + item_text(e, "enum", "Atom") + "\n" + item_text(e, "enum", "Event") + "\n"
            + "#[derive(Copy, Clone, PartialEq, Eq)]\n" + item_text(k, "enum", "ErrorKind") + "\n" + spec("core_types.rs"))
