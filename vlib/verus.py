"""Runs Verus on one woven unit and attributes every obligation, failure and
solver time to the function of /repo it came from."""
import json, os, re, shutil, subprocess, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")

UNDECIDED = ("rlimit", "Resource limit", "resource limit", "timed out", "timeout", "incompleteness")
OBLIG = ("precondition not satisfied", "postcondition not satisfied", "invariant not satisfied", "assertion failed",
         "possible arithmetic", "possible division by zero", "decreases not satisfied", "could not prove termination",
         "recommendation not met", "possible bit shift", "unreachable", "loop ensures", "loop invariant",
         "precondition not met", "not satisfied", "may be out of bounds", "cannot show", "failed")


def is_obligation(msg):
    return any(x in msg for x in OBLIG)


class Run:
    def __init__(self):
        self.functions = {}   # key -> dict(obligations, failed[], time_ms, rlimit, verus[])
        self.support = dict(obligations=0, time_ms=0.0, failed=[])
        self.front_end = []   # (line, message)
        self.verified = self.errors = 0
        self.solver_ms = 0.0
        self.wall = 0.0
        self.cmd = ""


def markers(text):
    """line -> key for the regions marked //@fn KEY .. //@end."""
    at, cur = {}, []
    for no, l in enumerate(text.split("\n"), 1):
        m = re.match(r"^\s*//@fn (.*?) @.*$", l)
        if m:
            cur.append(m.group(1).strip())
        at[no] = cur[-1] if cur else None
        if re.match(r"^\s*//@end", l) and cur:
            cur.pop()
    return at


def run(name, text, timeout=600, rlimit=None, extra=(), cfg=()):
    d = tempfile.mkdtemp(prefix="verus-", dir=_tmp())
    r = Run()
    try:
        path = os.path.join(d, name + ".rs")
        open(path, "w").write(text)
        cmd = ["verus", path, "--triggers-mode", "silent", "--output-json", "--time-expanded",
               "--log-dir", os.path.join(d, "log"), "--log", "air", "--num-threads", "6"]
        if rlimit:
            cmd += ["--rlimit", str(rlimit)]
        cmd += list(extra)
        cmd += ["--", "--error-format=json"]
        for c in cfg:
            cmd += ["--cfg", c]
        r.cmd = " ".join(c.replace(d, "$TMP") for c in cmd)
        t0 = time.time()
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=d)
            out, err = p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            out, err = "", ""
            r.front_end.append((0, "verus timed out after %d s" % timeout))
        r.wall = time.time() - t0
        r.stderr = err
        at = markers(text)
        lines = text.split("\n")
        for k in at.values():
            if k is not None and k not in r.functions:
                r.functions[k] = dict(obligations=0, failed=[], time_ms=0.0, rlimit=0, verus=[])
        # obligations per function from the AIR log
        vname = {}
        logd = os.path.join(d, "log")
        if os.path.isdir(logd):
            for fn in sorted(os.listdir(logd)):
                if not fn.endswith(".air"):
                    continue
                cur, prev, seen, here = None, "", set(), None
                for l in open(os.path.join(logd, fn), errors="replace"):
                    if l.startswith(";; Function-"):
                        m = re.match(r"^;; (Function-\S+) (\S+)", l)
                        cur, want, here = (m.group(1), m.group(2)), True, None
                    elif l.startswith(";; ") and cur and want:
                        m = re.match(r"^;; (.*?):(\d+):(\d+)", l)
                        if m and m.group(1).endswith(name + ".rs"):
                            k = at.get(int(m.group(2)))
                            here = k
                            vname.setdefault(cur[1], k)
                            if k and cur[1] not in r.functions[k]["verus"]:
                                r.functions[k]["verus"].append(cur[1])
                        want = False
                    elif prev.strip() == "(assert" and l.strip().startswith('("') and cur:
                        k = here
                        if k:
                            r.functions[k]["obligations"] += 1
                        else:
                            r.support["obligations"] += 1
                    prev = l
        js = None
        try:
            js = json.loads(out)
        except Exception:
            i = out.find("{")
            try:
                js = json.loads(out[i:]) if i >= 0 else None
            except Exception:
                js = None
        if js:
            vr = js.get("verification-results", {})
            r.verified, r.errors = vr.get("verified", 0), vr.get("errors", 0)
            for m in js.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
                r.solver_ms += m["time-micros"] / 1000.0
                for f in m["function-breakdown"]:
                    k = vname.get(f["function"])
                    e = r.functions[k] if k else r.support
                    e["time_ms"] += f["time-micros"] / 1000.0
                    if k:
                        e["rlimit"] += f["rlimit"]
        else:
            r.front_end.append((0, "verus gave no result"))
        done = bool(js) and "verification-results" in (js or {}) and not js["verification-results"].get("encountered-vir-error")
        for l in err.split("\n"):
            if not l.startswith("{"):
                continue
            try:
                m = json.loads(l)
            except Exception:
                continue
            if m.get("level") != "error":
                continue
            msg = m["message"]
            if msg.startswith("aborting due to"):
                continue
            sp = m.get("spans", [])
            prim = [s for s in sp if s["is_primary"]] or sp
            own = [at.get(s["line_start"]) for s in sp if s["file_name"].endswith(name + ".rs")]
            pk = [at.get(s["line_start"]) for s in prim if s["file_name"].endswith(name + ".rs")]
            key = next((k for k in pk if k), None) or next((k for k in own if k), None)
            if "postcondition" in msg:
                # the contract may be written at the trait: prefer the exit's function
                ex = [at.get(s["line_start"]) for s in sp if (s.get("label") or "").startswith("at ")]
                key = next((k for k in ex if k), None) or key
            if "precondition" in msg:
                ex = [at.get(s["line_start"]) for s in sp if not (s.get("label") or "").startswith("failed")]
                key = next((k for k in ex if k), None) or key
            und = any(u in msg for u in UNDECIDED)
            ln = prim[0]["line_start"] if prim else 0
            detail = dict(message=msg, line=ln, rendered=m.get("rendered") or msg, undecided=und,
                          clause="; ".join(lines[s["line_start"] - 1].strip() for s in sp if s["file_name"].endswith(name + ".rs") and 0 < s["line_start"] <= len(lines))[:600])
            if (is_obligation(msg) or und) and m.get("code") is None and done:
                (r.functions[key] if key else r.support)["failed"].append(detail)
            else:
                r.front_end.append((key or ln, (m.get("rendered") or msg)[:1500]))
        if not done and not r.front_end:
            r.front_end.append((0, "verus stopped: " + err[-800:]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return r


def _tmp():
    t = os.path.join(BUILD, "tmp")
    os.makedirs(t, exist_ok=True)
    return t


SCAN = [("assume_specification", r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]+?)\s*\]"),
        ("external_body", r"#\[verifier::external_body\][^;{]*?\b(?:fn|struct|enum|trait)\s+(\w+)"),
        ("external_type_specification", r"external_type_specification\][^;{]*?struct\s+\w+[^(]*\(([^)]*)\)"),
        ("external_trait_specification", r"external_trait_specification[^;{]*?trait\s+(\w+)"),
        ("axiom", r"\baxiom fn\s+(\w+)"),
        ("uninterp", r"\buninterp spec fn\s+(\w+)"),
        ("assume", r"\bassume\s*\(([^;]*)\)"),
        ("admit", r"\b(admit)\s*\(")]


def scan(text):
    """Everything in the woven text that Verus takes on trust."""
    clean = re.sub(r"//[^\n]*", "", text)
    out = []
    for kind, rx in SCAN:
        for m in re.finditer(rx, clean, re.S):
            out.append("%s: %s" % (kind, " ".join(m.group(1).split())))
    return sorted(set(out))
