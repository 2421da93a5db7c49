"""Mechanical extraction of functions from /repo and weaving of contracts into
their original text.  Every edit is a byte-range insertion or one of the named
rewrite rules; all of them are recorded for the evidence files."""
import copy, json, os, re, subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
DUMP = os.path.join(VERIF, ".build/dump/debug/dump")


class Drift(Exception):
    """The source no longer has the shape a weaving rule needs: the proof is
    undecided (never a violation)."""


def new_report(shapes=None, external=(), vacuity=False):
    """shapes: loop kinds per function the contracts were written for;
    external: functions whose body is left out this time."""
    return dict(shapes=shapes, kinds={}, external=set(external), functions=[], trusted=[], undecided=[], drift={},
                uncontracted=[], missing=[], rewrites=[], dropped=[], vacuity=vacuity)


def weave_all(src, fns, report, rules=(), known_uncontracted=()):
    """Weaves the contracts `fns` into every function of src."""
    for f in src.fns:
        for r in rules:
            r(src, f, report)
        c = fns.get(f["key"])
        if c:
            weave_fn(src, f, c, report)
        elif f["key"] not in known_uncontracted:
            report["uncontracted"].append(f["key"])
            mark(src, f)
            if f["body"]:
                src.edit(f["span"][0], f["span"][0], "#[verifier::external_body]\n", -1)
                cut_body(src, f)
    for k in fns:
        if not src.fn(k, must=False) and not fns[k].opt:
            report["missing"].append(k)


def cut_body(src, f):
    """Keeps a body nothing is said about away from the compiler."""
    src.edit(f["body"][0] + 1, f["body"][0] + 1, " #[cfg(any())] {", -30)
    src.edit(f["body"][1] - 1, f["body"][1] - 1, "} unimplemented!() ", 30)


def end_of_element(t, i):
    """End of the item, statement, block, field or arm that starts at i."""
    depth = 0
    while i < len(t):
        c = t[i]
        if t.startswith("//", i):
            i = t.find("\n", i)
            continue
        if c == '"':
            i += 1
            while t[i] != '"':
                i += 2 if t[i] == "\\" else 1
        elif c == "'":
            m = re.match(r"'(\\[^']*|\\'|[^'\\])'", t[i:])
            if m:
                i += len(m.group(0)) - 1
        elif c in "([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
            if depth < 0:
                return i
            if depth == 0 and c == "}":
                return i + 1
        elif c in ";," and depth == 0:
            return i + 1
        i += 1
    return i


def resolve_cfg(t, features, log=None):
    """Drops what #[cfg(..)], #[cfg_attr(..)] and #[test] leave out for the
    given features (blanked, so that positions stay)."""
    def val(x):
        x = x.strip()
        m = re.match(r"^(not|any|all)\((.*)\)$", x, re.S)
        if m:
            xs, d, cur = [], 0, ""
            for c in m.group(2):
                if c == "," and d == 0:
                    xs.append(cur)
                    cur = ""
                    continue
                d += (c == "(") - (c == ")")
                cur += c
            if cur.strip():
                xs.append(cur)
            vs = [val(y) for y in xs]
            return {"not": lambda: not vs[0], "any": lambda: any(vs), "all": lambda: all(vs)}[m.group(1)]()
        m = re.match(r'^feature\s*=\s*"([^"]*)"$', x)
        return bool(m and m.group(1) in features)

    def blank(a, b):
        nonlocal t
        t = t[:a] + re.sub(r"[^\n]", lambda m: " " * len(m.group(0).encode()), t[a:b]) + t[b:]

    pos = 0
    while True:
        m = re.compile(r"#\s*\[\s*(cfg_attr|cfg|test)\b\s*(?:\(((?:[^()]|\((?:[^()]|\([^()]*\))*\))*)\))?\s*\]").search(t, pos)
        if not m:
            return t
        pos = m.end()
        line0 = t.rfind("\n", 0, m.start()) + 1
        if "//" in t[line0:m.start()]:
            continue
        if m.group(1) == "cfg_attr":
            blank(m.start(), m.end())
        elif m.group(1) == "cfg" and val(m.group(2)):
            blank(m.start(), m.end())
        else:
            i = m.end()
            while True:
                w = re.compile(r"(\s+|//[^\n]*\n|#\s*\[[^\]]*\])*").match(t, i)
                i = w.end()
                break
            e = end_of_element(t, i)
            if log is not None:
                log.append("cfg: " + " ".join(t[m.start():m.end()].split()) + " " + " ".join(t[i:e].split())[:60])
            blank(m.start(), e)


def load(rel, features=None, report=None):
    p = os.path.join(REPO, rel)
    t = open(p).read()
    if features is not None:
        t = resolve_cfg(t, features, report["dropped"] if report else None)
    t = expand_matches(t, report, rel)
    # R-addstr: += on a String field is push_str (the definition of its AddAssign)
    fields = sorted(set(re.findall(r"\b(\w+): String\b", t)))
    if fields:
        t, n = re.subn(r"\b((?:\w+\.)*(?:%s)) \+= ([^;=\n]+);" % "|".join(fields), r"\1.push_str(\2);", t)
        if n and report is not None:
            report["rewrites"].append("R-addstr in %s: %d" % (rel, n))
    s = parse_text(t, rel)
    s.path = p
    return s


def expand_matches(t, report=None, rel=""):
    """R-matches: matches!(E, P) is what the standard library defines it as,
    (match E { P => true, _ => false })."""
    def scan(i, stop):
        """Index of the first top-level character of stop from i on."""
        d = 0
        while i < len(t):
            c = t[i]
            if d == 0 and c in stop:
                return i
            if t.startswith("//", i):
                i = t.find("\n", i)
            elif t.startswith("/*", i):
                i = t.index("*/", i) + 1
            elif c == '"':
                i += 1
                while t[i] != '"':
                    i += 2 if t[i] == "\\" else 1
            elif c == "'":
                m = re.match(r"'(\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F]+\}|\\.|[^'\\])'", t[i:])
                i += len(m.group(0)) - 1 if m else 0
            elif c in "([{":
                d += 1
            elif c in ")]}":
                d -= 1
            i += 1
        raise Drift("cannot read a matches! of %s" % rel)

    pos, n = 0, 0
    while True:
        m = re.compile(r"\bmatches!\s*\(").search(t, pos)
        if not m:
            break
        if "//" in t[t.rfind("\n", 0, m.start()) + 1:m.start()]:
            pos = m.end()
            continue
        a = scan(m.end(), ",")
        e = scan(a + 1, ")")
        pat = t[a + 1:e].rstrip()
        pat = pat[:-1] if pat.endswith(",") else pat
        t = t[:m.start()] + "(match " + t[m.end():a] + " {" + pat + " => true, _ => false })" + t[e + 1:]
        pos, n = m.start(), n + 1
    if n and report is not None:
        report["rewrites"].append("R-matches in %s: %d" % (rel, n))
    return t


def parse_text(text, name="expanded"):
    """Dump for source text that is not a file of /repo (macro expansions)."""
    import tempfile

    with tempfile.NamedTemporaryFile("w", suffix=".rs", delete=False) as f:
        f.write(text)
    try:
        out = subprocess.run([DUMP, f.name], capture_output=True, text=True, check=True).stdout
    finally:
        os.unlink(f.name)
    d = json.loads(out)[f.name]
    if "error" in d:
        raise Drift("cannot parse %s: %s" % (name, d["error"]))
    return Source(name, text.encode(), d)


def strip_lt(ty):
    ty = re.sub(r"'[a-z_]\w*\s*,?", "", ty)
    ty = ty.replace("<>", "")
    return ty.strip()


class Source:
    def __init__(self, path, data, d):
        self.path, self.data = path, data
        self.items, self.fns, self.nodes = d["items"], d["fns"], d["nodes"]
        self.edits = []  # (start, end, bytes, order)
        for f in self.fns:
            f["key"] = self._key(f)
            f["nodes"] = [n for n in self.nodes if n["fn"] == f["idx"]]
            f["loops"] = [n for n in f["nodes"] if n["kind"] in ("while", "loop", "for")]

    def _key(self, f):
        if f["parent_fn"] >= 0:
            base = self.fns[f["parent_fn"]]["key"] + "::"
        else:
            base = ""
        if f["self_ty"] is not None:
            t = strip_lt(f["self_ty"])
            if f["trait"]:
                return base + "<%s as %s>::%s" % (t, strip_lt(f["trait"]), f["name"])
            return base + "%s::%s" % (t, f["name"])
        if f["in_trait"]:
            return base + f["in_trait"] + "::" + f["name"]
        mods = [s for s in f["scope"]] if not base else []
        return base + "::".join(mods + [f["name"]])

    def text(self, span):
        return self.data[span[0]:span[1]].decode()

    def rel(self):
        return os.path.relpath(self.path, REPO) if self.path.startswith("/") else self.path

    def line(self, off):
        return self.data.count(b"\n", 0, off) + 1

    def fn(self, key, must=True):
        r = [f for f in self.fns if f["key"] == key]
        if len(r) != 1:
            if must:
                raise Drift("function %s not found in %s" % (key, self.path))
            return None
        return r[0]

    def edit(self, start, end, text, order=0):
        self.edits.append((start, end, text, order, len(self.edits)))

    def render(self, start, end):
        """Text of [start,end) with all edits inside applied."""
        es = sorted([e for e in self.edits if e[0] >= start and e[1] <= end], key=lambda e: (e[0], e[1], e[3], e[4]))
        out, pos = [], start
        for s, e, t, _o, _n in es:
            if s < pos:
                # nested inside a replaced range: drop
                continue
            out.append(self.data[pos:s].decode())
            out.append(t)
            pos = e
        out.append(self.data[pos:end].decode())
        return "".join(out)


class C:
    """Contract of one function."""

    def __init__(self, req=(), ens=(), dec=None, loops=(), entry="", ret="r", props=(), attrs="", rewrites=(),
                 external=False, isolate=False, hints=(), sig_sub=(), noret=False, text=None, opt=False, unwind=True,
                 default_ens=None, entry_raw="", also=(), tag=None):
        self.req = [req] if isinstance(req, str) else list(req)
        self.ens = [ens] if isinstance(ens, str) else list(ens)
        self.dec, self.loops, self.entry, self.ret = dec, list(loops), entry, ret
        self.props, self.attrs, self.rewrites, self.also = list(props), attrs, list(rewrites), list(also)
        self.external, self.isolate, self.hints = external, isolate, list(hints)
        self.sig_sub, self.noret, self.text, self.opt = list(sig_sub), noret, text, opt
        self.default_ens, self.entry_raw = default_ens, entry_raw
        # tag = (property, marker, ensures), or several: obligations whose clause contains the
        # marker belong to that property and to no other
        self.tags = tag if isinstance(tag, list) else [tag] if tag else []
        for t in self.tags:
            self.ens += t[2]


class L:
    """Loop contract: invariants (candidates kept only if they type check and
    hold), a measure, and proof text at the start / end of the body."""

    def __init__(self, inv=(), dec=None, start="", end="", ens=(), exc=(), before="", after="", header=None):
        self.inv = [inv] if isinstance(inv, str) else list(inv)
        self.exc = [exc] if isinstance(exc, str) else list(exc)
        self.dec, self.start, self.end, self.ens = dec, start, end, ([ens] if isinstance(ens, str) else list(ens))
        self.before, self.after, self.header = before, after, header


def clause(kw, items, indent="    "):
    if not items:
        return ""
    return "\n" + indent + kw + "\n" + "".join(indent * 2 + i.strip().rstrip(",") + ",\n" for i in items)


def mark(src, f):
    src.edit(f["span"][0], f["span"][0], "\n//@fn %s @%s:%d\n" % (f["key"], src.rel(), src.line(f["span"][0])), -20)
    src.edit(f["span"][1], f["span"][1], "\n//@end\n", 20)


def weave_fn(src, f, c, report):
    """Insert the contract c into function f of src (edits only)."""
    key = f["key"]
    mark(src, f)
    mine = key in report["external"]
    kinds = [n["kind"] for n in f["loops"]]
    if not c.external and not mine:
        want = None if report["shapes"] is None else report["shapes"].get(key, [])
        # the verifier does not see what a closure without a contract returns
        shape = kinds + ["closure"] * sum(n["kind"] == "closure" for n in f["nodes"])
        report["kinds"][key] = shape
        if len(kinds) != len(c.loops) or (want is not None and want != shape):
            report["drift"][key] = "loops and closures are %s, the contract describes %d loops %s" % (shape, len(c.loops), want if want is not None else "")
            mine = True
    if mine:
        report["undecided"].append(key)
        c = copy.copy(c)
        c.external, c.entry, c.entry_raw, c.loops, c.hints = True, "", "", [], []
        if f["body"]:
            cut_body(src, f)
    elif c.external:
        report["trusted"].append(key)
    else:
        report["functions"].append(key)
        if report.get("vacuity") and f["body"]:
            c = copy.copy(c)
            c.entry = "assert(false);"
            c.entry_raw, c.hints = "", []
    if c.attrs or not c.isolate:
        a = c.attrs
        if not c.isolate and f["loops"]:
            a += " #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]"
        if c.external:
            a += " #[verifier::external_body]"
        if a.strip():
            src.edit(f["span"][0], f["span"][0], a.strip() + "\n    ", -1)
    if c.ret and f["out"] is not None and not c.noret:
        t = src.text(f["out"])
        for a, b in c.sig_sub:
            t = t.replace(a, b)
        src.edit(f["out"][0], f["out"][1], "(%s: %s)" % (c.ret, t))
    spec = clause("requires", c.req) + clause("ensures", c.ens)
    if c.dec:
        spec += "\n    decreases %s" % c.dec
    end = f["body"][0] if f["body"] else f["semi"][0]
    if not f["body"]:
        report.setdefault("declared", []).append(f["key"])
    if spec:
        src.edit(end, end, spec + "\n    ")
    if f["body"] and c.entry:
        src.edit(f["body"][0] + 1, f["body"][0] + 1, "\n    proof { " + c.entry + " }\n")
    if f["body"] and c.entry_raw:
        src.edit(f["body"][0] + 1, f["body"][0] + 1, " " + c.entry_raw, -3)
    if c.external:
        return
    for lp, n in zip(c.loops, f["loops"]):
        weave_loop(src, n, lp)
    for h in c.hints:
        h(src, f)


def weave_loop(src, n, lp):
    b0, b1 = n["body"]
    t = clause("invariant_except_break", lp.exc, "            ") + clause("invariant", lp.inv, "            ")
    t += clause("ensures", lp.ens, "            ")
    if lp.dec:
        t += "\n            decreases %s,\n" % lp.dec
    if n["kind"] == "for" and not lp.header and not n.get("rewritten"):
        src.edit(n["expr"][0], n["expr"][0], "it: ")
    if lp.header:
        src.edit(n["span"][0], b0, lp.header)
    if t:
        src.edit(b0, b0, t + "            ", 1)
    if lp.start:
        src.edit(b0 + 1, b0 + 1, "\n proof { " + lp.start + " }\n")
    if lp.end:
        src.edit(b1 - 1, b1 - 1, "\n proof { " + lp.end + " }\n")
    if lp.before:
        src.edit(n["span"][0], n["span"][0], lp.before + "\n", -2)
    if lp.after:
        src.edit(n["span"][1], n["span"][1], "\n" + lp.after)


def static_text(src, it, name, ens, proof, ex):
    return "\n//@fn static %s @%s:%d\nexec static %s: %s\n    ensures %s\n{ %s%s }\n//@end\n" % (
        name, src.rel(), src.line(it["span"][0]), name, it["ty"], ens, "proof { %s }\n" % proof if proof else "", ex)


def rewrite_static(src, name, ens, report, proof=""):
    """R-static: `static X: T = E;` becomes `exec static X: T ensures .. { E }`
    (Verus syntax for the same item)."""
    it = [i for i in src.items if i["kind"] == "static" and i["name"] == name]
    if len(it) != 1:
        raise Drift("static %s not found" % name)
    it = it[0]
    ex = src.text(it["expr"])
    src.edit(it["span"][0], it["span"][1], static_text(src, it, name, ens, proof, ex))
    report["rewrites"].append("R-static %s" % name)


# --- generic rewrite rules -------------------------------------------------

def rule_common(src, f, report):
    """Rules applied to every extracted function.
    R-wild: `|_|` closures get a named unused parameter.
    R-refpat: `&x` inside a match/if-let/for pattern binds `x_ref` and the body
    starts with `let x = *x_ref;` (x is Copy, or the code would not compile).
    R-old: ghost copies of by-value `mut` parameters."""
    for n in f["nodes"]:
        if n["kind"] == "closure":
            t = src.text(n["span"])
            m = re.match(r"^(move\s+)?\|\s*_\s*\|", t)
            if m:
                i = n["span"][0] + t.index("_")
                src.edit(i, i + 1, "_unused")
                report["rewrites"].append("R-wild %s:%d" % (f["key"], src.line(i)))
        if n["kind"] == "lit" and n["text"].startswith('b"') and "\\" not in n["text"]:
            v = n["text"][2:-1].encode()
            src.edit(n["span"][0], n["span"][1], "&[" + ", ".join("0x%02xu8" % b for b in v) + "]")
            report["rewrites"].append("R-bytes %s:%d" % (f["key"], src.line(n["span"][0])))
        if n["kind"] == "mcall" and n["method"] in ("map", "map_err", "and_then"):
            for sp_, t in zip(n["args"], n["args_text"]):
                m = re.match(r"^([A-Z]\w*)::([A-Z]\w*)$", t)
                if m:
                    src.edit(sp_[0], sp_[1], "|x| -> (r: %s) ensures r == %s(x) { %s(x) }" % (m.group(1), t, t))
                    report["rewrites"].append("R-ctor %s:%d" % (f["key"], src.line(sp_[0])))
        if n["kind"] == "match":
            for a in n["arms"]:
                _refpat(src, f, a["pat"], a["body"], report)
    if f["body"]:
        g = ""
        for p in f["params"]:
            if not p["self"]:
                m = re.match(r"^mut (\w+)$", p["pat"])
                if m and not p["ty"].startswith("&mut"):
                    g += " let ghost old_%s = %s;" % (m.group(1), m.group(1))
        if g:
            src.edit(f["body"][0] + 1, f["body"][0] + 1, g, -5)


def _refpat(src, f, pat, body, report):
    t = src.text(pat)
    names = re.findall(r"&\s*([a-z_]\w*)\b(?!\s*[:(])", t)
    names = [n for n in names if n not in ("mut",)]
    if not names:
        return
    for m in re.finditer(r"&\s*([a-z_]\w*)\b", t):
        if m.group(1) in names:
            src.edit(pat[0] + m.start(), pat[0] + m.end(), m.group(1) + "_ref")
    lets = " ".join("let %s = *%s_ref;" % (n, n) for n in names)
    if src.data[body[0]:body[0] + 1] == b"{":
        src.edit(body[0] + 1, body[0] + 1, " " + lets)
    else:
        src.edit(body[0], body[0], "{ " + lets + " ")
        src.edit(body[1], body[1], " }")
    report["rewrites"].append("R-refpat %s:%d" % (f["key"], src.line(pat[0])))


def float_names(src, f):
    """Names of f64 locals/parameters of f (syntactic inference)."""
    names = set()
    for p in f["params"]:
        if not p["self"] and p["ty"] in ("f64", "f32"):
            names.add(re.sub(r"^mut ", "", p["pat"]))
    for _ in range(3):
        for n in f["nodes"]:
            if n["kind"] == "let" and n.get("init_text"):
                nm = re.sub(r"^mut ", "", n["pat"]).split(":")[0]
                if _is_float_text(n["init_text"], names) or n["pat"].endswith(":f64"):
                    names.add(nm)
            if n["kind"] == "match" and re.match(r"^POW10\.get\(", n["scrut_text"]):
                for a in n["arms"]:
                    m = re.match(r"^Some\(&?(\w+)\)$", a["pat_text"])
                    if m:
                        names.add(m.group(1))
    return names


def _is_float_text(t, names):
    t = t.strip()
    while t.startswith("(") and t.endswith(")"):
        t = t[1:-1]
    if t.endswith(" as f64") or t in names:
        return True
    if re.match(r"^-?\d[\d_]*(\.\d*|e-?\d+|\.\d+e-?\d+)(f64)?$", t):
        return True
    if t.startswith("-") and _is_float_text(t[1:], names):
        return True
    if re.match(r"^\*?POW10\[", t):
        return True
    m = re.match(r"^(\w+)[*/](.+)$", t)
    return bool(m and (m.group(1) in names or _is_float_text(m.group(2), names)))


def rule_float(src, f, report):
    """R-float: floating point operators become calls of wrappers whose bodies
    are exactly these operators."""
    names = float_names(src, f)
    fl = lambda t: _is_float_text(t, names)

    def note(n):
        report["rewrites"].append("R-float %s:%d" % (f["key"], src.line(n["span"][0])))

    ops = {"*": "vf_mul", "/": "vf_div", "*=": "vf_mul", "/=": "vf_div", "==": "vf_eq"}
    for n in f["nodes"]:
        k = n["kind"]
        if k == "binary" and n["op"] in ops and (fl(n["left_text"]) or fl(n["right_text"])):
            w = ops[n["op"]]
            if n["op"].endswith("=") and n["op"] != "==":
                src.edit(n["left"][1], n["right"][0], " = %s(%s, " % (w, n["left_text"]))
            else:
                src.edit(n["left"][0], n["left"][0], w + "(")
                src.edit(n["left"][1], n["right"][0], ", ")
            src.edit(n["right"][1], n["right"][1], ")")
            note(n)
        elif k == "unary" and n["op"] == "-" and fl(n["expr_text"]):
            src.edit(n["span"][0], n["expr"][0], "vf_neg(")
            src.edit(n["span"][1], n["span"][1], ")")
            note(n)
        elif k == "cast" and n["ty"] == "f64":
            src.edit(n["expr"][0], n["expr"][0], "vf_from_u64(")
            src.edit(n["expr"][1], n["span"][1], ")")
            note(n)
        elif k == "mcall" and n["method"] in ("is_infinite", "is_finite", "is_nan") and fl(n["recv_text"]):
            src.edit(n["recv"][0], n["recv"][0], "vf_%s(" % n["method"])
            src.edit(n["recv"][1], n["span"][1], ")")
            note(n)


def drop_items(src, pred):
    for i in src.items:
        if i["in_fn"] < 0 and pred(i):
            end = i["span"][1]
            src.edits = [e for e in src.edits if not (e[0] >= i["span"][0] and e[1] <= end)]
            src.edit(i["span"][0], end, "")


def rule_vis(src, report):
    """R-vis: types and their fields are made public (specifications of public
    functions may then mention them)."""
    for i in src.items:
        if i["kind"] in ("struct", "enum", "trait", "type", "const") and i["in_fn"] < 0:
            t = src.text(i["span"])
            # the span of an item includes its attributes
            off = i["span"][0]
            for a in i["attrs"]:
                off = max(off, a["span"][1])
            rest_ = src.data[off:i["span"][1]].decode()
            m = re.match(r"(\s|//[^\n]*\n)*", rest_)
            q = off + len(m.group(0).encode())
            mv = re.match(r"pub\([^)]*\)", src.data[q:q + 40].decode("utf8", "ignore"))
            if mv:
                src.edit(q, q + len(mv.group(0)), "pub", -4)
            elif not src.data[q:].startswith(b"pub"):
                src.edit(q, q, "pub ", -4)
        if i["kind"] == "struct":
            for f in i["fields"]:
                if f["vis"] == "":
                    st = f["span"][0]
                    t = src.text(f["span"])
                    # skip attributes / doc comments
                    m = re.match(r"(\s|//[^\n]*\n|#\[[^\]]*\])*", t)
                    st += len(m.group(0).encode())
                    src.edit(st, st, "pub ", -4)


def split_or(t):
    """Top-level alternatives of a pattern text, as (start, end)."""
    out, d, a = [], 0, 0
    for i, c in enumerate(t):
        if c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
        elif c == "|" and d == 0:
            out.append((a, i))
            a = i + 1
    out.append((a, len(t)))
    return [(x, y) for x, y in out if t[x:y].strip()]


def rule_orlet(src, f, report):
    """R-orlet: `if let P(A | B) = E { body }` becomes a match with one arm per
    alternative (Verus has no or-patterns binding by mutable reference)."""
    for n in f["nodes"]:
        if n["kind"] != "if" or n.get("else"):
            continue
        le = [x for x in f["nodes"] if x["kind"] == "letexpr" and x["span"] == n["cond"]]
        if not le:
            continue
        le = le[0]
        t = src.text(le["pat"])
        m = re.match(r"^(\w+(?:::\w+)*)\(\s*", t)
        if not m or "|" not in t:
            continue
        inner = t[m.end():t.rindex(")")].rstrip().rstrip(",")
        alts = split_or(inner)
        if len(alts) < 2:
            continue
        body = src.text(n["then"])
        arms = " ".join("%s(%s) => %s" % (m.group(1), inner[a:b].strip(), body) for a, b in alts)
        src.edit(n["span"][0], n["span"][1], "match %s { %s _ => {} }" % (src.text(le["expr"]), arms))
        report["rewrites"].append("R-orlet %s:%d" % (f["key"], src.line(n["span"][0])))


def rule_enumerate(src, f, report):
    """R-enum: `for (I, &X) in E.iter().enumerate() { B }` becomes
    `let mut vf_i = 0; while vf_i < E.len() { let I = vf_i; vf_i += 1; let X = E[I]; B }`
    (Verus has neither enumerate nor continue in for loops)."""
    for n in f["loops"]:
        if n["kind"] != "for":
            continue
        m = re.match(r"^(\w+)\.iter\(\)\.enumerate\(\)$", n["expr_text"])
        p = re.match(r"^\((\w+),&(\w+)\)$", n["pat_text"].replace(" ", ""))
        if not (m and p):
            continue
        e = m.group(1)
        src.edit(n["span"][0], n["body"][0], "let mut vf_i: usize = 0; while vf_i < %s.len() " % e)
        src.edit(n["body"][0] + 1, n["body"][0] + 1, " let %s = vf_i; vf_i += 1; let %s = %s[%s]; " % (p.group(1), p.group(2), e, p.group(1)), -10)
        n["rewritten"] = True
        report["rewrites"].append("R-enum %s:%d" % (f["key"], src.line(n["span"][0])))


def rule_str_slice(src, f, report):
    """R-slice: `&S[A..B]` of a `&str` parameter becomes vf_str_slice(S, A, B),
    whose body is exactly that expression."""
    strs = set(p["pat"] for p in f["params"] if not p["self"] and p["ty"].replace(" ", "") == "&str")
    for n in f["nodes"]:
        if n["kind"] == "ref":
            ix = [x for x in f["nodes"] if x["kind"] == "index" and x["span"] == n["expr"] and x["range"] and x["base_text"] in strs]
            if ix:
                s = ix[0]["base_text"]
                m = re.match(r"^(.*)\.\.(.*)$", src.text(ix[0]["index"]))
                if not m or m.group(2).startswith("="):
                    continue
                src.edit(n["span"][0], n["span"][1], "vf_str_slice(%s, %s, %s)" % (s, m.group(1).strip() or "0", m.group(2).strip() or s + ".len()"))
                report["rewrites"].append("R-slice %s:%d" % (f["key"], src.line(n["span"][0])))


def rule_float_arms(src, f, report):
    """R-float in match arms that bind the payload of Atom::F64."""
    for n in f["nodes"]:
        if n["kind"] != "match":
            continue
        for a in n["arms"]:
            m = re.search(r"\bAtom::F64\((\w+)\)", a["pat_text"])
            if not m:
                continue
            for x in f["nodes"]:
                if x["kind"] == "mcall" and x["recv_text"] == m.group(1) and x["method"] in ("is_finite", "is_nan", "is_infinite") \
                        and x["span"][0] >= a["body"][0] and x["span"][1] <= a["body"][1]:
                    src.edit(x["span"][0], x["span"][1], "vf_%s(%s)" % (x["method"], m.group(1)))
                    report["rewrites"].append("R-float %s:%d" % (f["key"], src.line(x["span"][0])))


def hoist_static(src, name, ens, report, proof=""):
    """R-hoist: a static declared inside a function moves to module level."""
    it = [i for i in src.items if i["kind"] == "static" and i["name"] == name]
    if len(it) != 1:
        raise Drift("static %s not found" % name)
    it = it[0]
    ex = src.text(it["expr"])
    m = re.match(r'^\*b"([^"\\]*)"$', ex)
    if m:
        ex = "[" + ", ".join("0x%02xu8" % b for b in m.group(1).encode()) + "]"
        report["rewrites"].append("R-bytes static %s" % name)
    src.edit(it["span"][0], it["span"][1], "")
    report["rewrites"].append("R-hoist static %s" % name)
    return static_text(src, it, name, ens, proof, ex)


def desugar_mut_self(src, report):
    """R-mutself: `fn f(mut self, ..) { B }` becomes `fn f(self, ..) { let mut vf_self = self; B }`
    with `self` renamed in B (Verus has no `mut self`)."""
    data = src.data
    es = []
    for f in src.fns:
        p = next((p for p in f["params"] if p["self"]), None)
        if not p or not f["body"] or not re.match(r"^mut\s+self$", src.text(p["span"]).strip()):
            continue
        es.append((p["span"][0], p["span"][1], "self"))
        es.append((f["body"][0] + 1, f["body"][0] + 1, " let mut vf_self = self; "))
        body = src.text(f["body"])
        for m in re.finditer(r"\bself\b(?!\s*::)", body):
            a = f["body"][0] + len(body[:m.start()].encode())
            es.append((a, a + 4, "vf_self"))
        report["rewrites"].append("R-mutself %s:%d" % (f["key"], src.line(f["span"][0])))
    if not es:
        return src
    t = data
    for a, b, x in sorted(es, reverse=True):
        t = t[:a] + x.encode() + t[b:]
    n = parse_text(t.decode(), src.rel())
    n.path = src.path
    return n
