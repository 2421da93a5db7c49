"""Macro-expanded source of a crate of /repo (rustc's own expansion), and the
mechanical steps that turn a module of it into text Verus accepts."""
import os, re, shutil, subprocess, threading
from vlib import weave
from vlib.weave import Drift, parse_text, Source, VERIF, REPO

_lock, _cache = threading.Lock(), {}


def expanded(pkg, features=(), cwd=None, bin=None):
    """rustc -Zunpretty=expanded of a workspace member of /repo."""
    with _lock:
        k = (pkg, tuple(features), cwd)
        if k not in _cache:
            env = dict(os.environ, RUSTFLAGS="-Awarnings", CARGO_NET_OFFLINE="true",
                       CARGO_TARGET_DIR=os.path.join(VERIF, ".build/expand"))
            cmd = ["cargo", "+nightly", "rustc", "--offline", "-q", "-p", pkg, "--no-default-features"]
            if features:
                cmd += ["--features", ",".join(features)]
            cmd += (["--bin", bin] if bin else ["--lib"]) + ["--", "-Zunpretty=expanded"]
            p = subprocess.run(cmd, cwd=cwd or REPO, env=env, capture_output=True, text=True)
            if p.returncode == 0 and not p.stdout:  # cargo thought it had run already
                shutil.rmtree(os.path.join(VERIF, ".build/expand/debug"), ignore_errors=True)
                p = subprocess.run(cmd, cwd=cwd or REPO, env=env, capture_output=True, text=True)
            if p.returncode != 0 or not p.stdout:
                raise Drift("%s does not expand: %s" % (pkg, p.stderr[-1500:]))
            t = re.sub(r"(?m)^\s*//[/!].*$", "", p.stdout)
            t = re.sub(r"(?m)^\s*#!?\[(automatically_derived|inline[^\]]*|allow[^\]]*|doc[^\]]*|cold|non_exhaustive|must_use[^\]]*|repr[^\]]*|coverage\(off\)|track_caller)\]\s*", " ", t)
            t = re.sub(r"#!?\[allow\([^\]]*\)\]", "", t)
            _cache[k] = t
        return _cache[k]


def balanced(t, i, o="{", c="}"):
    """Index after the bracket that closes the one at t[i] (no brackets occur in
    the strings of the texts this is used on, or they are balanced)."""
    d = 0
    while i < len(t):
        if t[i] == '"':
            i += 1
            while t[i] != '"':
                i += 2 if t[i] == "\\" else 1
        elif t[i] == "'":
            m = re.match(r"'(\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F]+\}|\\.|[^'\\])'", t[i:])
            if m:
                i += len(m.group(0)) - 1
        elif t[i] == o:
            d += 1
        elif t[i] == c:
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise Drift("unbalanced text")


def module(text, path):
    """Inner text of a (nested) module."""
    for m in path:
        x = re.search(r"^(\s*)(?:pub(?:\([a-z]+\))? )?mod %s \{" % m, text, re.M)
        if not x:
            raise Drift("module %s not found" % "::".join(path))
        e = balanced(text, x.end() - 1)
        text = text[x.end():e - 1]
    return text


def without_modules(text):
    out, pos = [], 0
    for x in re.finditer(r"^\s*(?:pub(?:\([a-z]+\))? )?mod \w+ \{", text, re.M):
        if x.start() < pos:
            continue
        out.append(text[pos:x.start()])
        pos = balanced(text, x.end() - 1)
    out.append(text[pos:])
    return "".join(out)


def macros(text, report, name):
    """R-format: the expansion of format!(..) is an opaque String;
    R-panic: the expansion of panic!(..) is vf_panic() (requires false).
    Paths from the crate root lead to the same items, which are all at one level here."""
    text = re.sub(r"(?<![\w$])crate::(?:[a-z_]\w*::)+(?=[A-Z]\w*::)", "", text)
    while True:
        m = re.search(r"::alloc::__export::must_use\(", text)
        if not m:
            break
        e = balanced(text, m.end() - 1, "(", ")")
        text = text[:m.start()] + "vf_format()" + text[e:]
        report["rewrites"].append("R-format in %s" % name)
    while True:
        m = re.search(r"::core::panicking::\w+\(", text)
        if not m:
            break
        e = balanced(text, m.end() - 1, "(", ")")
        text = text[:m.start()] + "vf_panic()" + text[e:]
        report["rewrites"].append("R-panic in %s" % name)
    return text


def head_of(ty):
    if ty.startswith("("):
        return "Tuple%d" % len([x for x in ty.strip("()").split(",") if x.strip()])
    if ty.startswith("["):
        return "Array" if ";" in ty else "Slice"
    if ty.startswith("&"):
        return "Ref"
    return re.match(r"(?:\w+::)*(\w+)", ty).group(1)


def hoist(text, report, name):
    """R-hoist: items declared inside functions move to module level; where two
    functions declare the same name, it is prefixed with the Self type of the
    function's impl."""
    src = parse_text(text, name)
    loc = [i for i in src.items if i["in_fn"] >= 0 and i["kind"] in ("struct", "enum", "impl", "static", "const", "fn")]
    tops = [i for i in loc if src.fns[i["in_fn"]]["parent_fn"] < 0]
    cnt = {}
    for i in src.items:
        if i["kind"] in ("struct", "enum"):
            cnt[i["name"]] = cnt.get(i["name"], 0) + 1
    moved, edits = [], []
    for fi, f in enumerate(src.fns):
        mine = [i for i in tops if i["in_fn"] == fi and i["kind"] in ("struct", "enum", "impl")]
        if not mine:
            continue
        ren = {}
        for i in mine:
            if i["kind"] != "impl" and cnt[i["name"]] > 1:
                ren[i["name"]] = head_of(f["self_ty"] or f["name"]) + i["name"]
        body = src.text(f["body"])
        off = f["body"][0]
        data = src.data
        # pieces to move, in order
        pieces = []
        keep = data[f["body"][0]:f["body"][1]]
        for i in sorted(mine, key=lambda i: -i["span"][0]):
            a, b = i["span"][0] - off, i["span"][1] - off
            pieces.insert(0, keep[a:b].decode())
            keep = keep[:a] + keep[b:]
        keep = keep.decode()

        def rn(t):
            for k, v in ren.items():
                t = re.sub(r"\b%s\b" % k, v, t)
            return t
        moved += [rn(p) for p in pieces]
        edits.append((f["body"][0], f["body"][1], rn(keep)))
        report["rewrites"].append("R-hoist %s: %s" % (f["key"], ", ".join(ren.get(i["name"], i["name"]) for i in mine if i["kind"] != "impl")))
    data = src.data
    for a, b, t in sorted(edits, reverse=True):
        data = data[:a] + t.encode() + data[b:]
    return data.decode() + "\n" + "\n".join(moved) + "\n"


def opaque(text, names, report, unit):
    """R-opaque: bodies of functions no property speaks about are left out."""
    src = parse_text(text, unit)
    data = src.data
    for f in sorted((f for f in src.fns if f["name"] in names and f["body"] and f["parent_fn"] < 0), key=lambda f: -f["body"][0]):
        data = data[:f["body"][0]] + b"{ unimplemented!() }" + data[f["body"][1]:]
        data = data[:f["span"][0]] + b"#[verifier::external_body] " + data[f["span"][0]:]
        report["dropped"].append("body of %s (%s)" % (f["key"], unit))
    return data.decode()
