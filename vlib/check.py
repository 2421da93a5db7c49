"""./check PROPERTY: decides one property on /repo's current tree."""
import concurrent.futures as cf
import importlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from vlib import weave, verus, derives
from vlib.props import PROPS, T

BUILD = os.path.join(VERIF, ".build")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
ENV = dict(os.environ, RUSTFLAGS="-Awarnings", RUST_BACKTRACE="0", CARGO_NET_OFFLINE="true")
DERIVED = ("C23", "C24", "C25", "C26")  # also checked for what the derives accept and refuse
SAFETY = ("arithmetic", "division", "precondition", "decreases", "termination", "shift", "out of bounds", "unreachable")


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build_dump():
    if os.path.exists(weave.DUMP):
        return
    subprocess.run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(VERIF, "tools/dump"),
                   env=dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "dump")), check=True, stdout=sys.stderr)


def shapes():
    p = os.path.join(VERIF, "specs/shapes.json")
    return json.load(open(p)) if os.path.exists(p) else {}


# ---------------------------------------------------------------- proof side

def short(path):
    p = re.sub(r"::<[^<>]*>", "", " ".join(path.split()).replace("<[T]>", "slice"))
    return "::".join(p.split("::")[-2:])


def add_std(text, names):
    """Adds the contracts of the std functions (specs/std_more.rs) called `names`
    that the woven text does not specify itself."""
    more = open(os.path.join(VERIF, "specs/std_more.rs")).read()
    have = set(short(m) for m in re.findall(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*((?:<\[\w+\]>)?[^\]]+?)\s*\]", text))
    out = []
    for m in re.finditer(r"^pub assume_specification.*?;\n(?=pub|\Z)", more, re.M | re.S):
        path = short(re.search(r"\[ ((?:<\[T\]>)?[^\]]*?) \]", m.group(0)).group(1))
        if path.split("::")[-1] in names and path not in have:
            out.append(m.group(0))
    i = text.rfind("} // verus!")
    return text[:i] + "".join(out) + text[i:] if out and i > 0 else text


DEADLINE = time.time() + 780   # a check has 900 s


def run_unit(name, vacuity=False, rlimit=None):
    """Weaves and verifies one unit; functions whose woven form no longer
    compiles are left out (undecided) and the rest is verified again."""
    mod = importlib.import_module("specs." + name)
    external = set()
    out = dict(name=name, error=None)
    std, retry = set(), True
    for attempt in range(7):
        rep = weave.new_report(shapes().get(name), external, vacuity)
        try:
            text = mod.build(rep)
        except weave.Drift as e:
            out.update(error="cannot weave: %s" % e, report=rep, run=None)
            return out
        if std:
            text = add_std(text, std)
        r = verus.run(name, text, timeout=max(20, min(500, DEADLINE - time.time())), rlimit=rlimit or getattr(mod, "RLIMIT", None), cfg=getattr(mod, "CFG", ()),
                      extra=["--multiple-errors", "200"] if vacuity else [])
        out.update(report=rep, run=r, text=text)
        if not r.front_end:
            break
        keys = set(k for k, _m in r.front_end if isinstance(k, str)) - external
        if time.time() > DEADLINE:
            keys = set()
        log("%s: front end: %s" % (name, [(k, m[:300]) for k, m in r.front_end][:3]))
        new = set(re.findall(r"`[^`]*::(\w+)` is not supported", " ".join(m for _k, m in r.front_end))) - std
        if retry and new and time.time() < DEADLINE:
            std |= new
            continue
        if std and retry and not keys:
            std, retry = set(), False
            continue
        if not keys:
            out["error"] = "front end: %s" % (r.front_end[0][1][:800])
            break
        external |= keys
        if attempt == 6:
            out["error"] = "front end errors persist"
    return out


def names_of(text):
    return set(re.findall(r"\b([a-z_]\w*)\s*(?:::<[^>]*>)?\(", text))


# Functions of core/alloc whose contracts (vstd's, or specs/std_more.rs) say all there
# is to say about their results.
KNOWN = set("""len is_empty push pop insert remove clear truncate last last_mut first first_mut get get_mut contains_key
take replace unwrap expect is_some is_none is_ok is_err ok err or or_else map map_err map_or and_then filter unwrap_or
unwrap_or_else unwrap_or_default is_some_and is_none_or zip copied as_ref as_mut as_slice as_mut_slice new swap
min max abs pow wrapping_add wrapping_sub wrapping_mul wrapping_neg checked_add checked_sub checked_mul checked_neg checked_pow
saturating_add saturating_sub saturating_mul overflowing_add overflowing_sub overflowing_mul unsigned_abs signum is_positive is_negative
min_value max_value push_str to_string to_owned as_str as_bytes chars Some Ok Err Box Vec String""".split())


def calls():
    p = os.path.join(VERIF, "specs/calls.json")
    return json.load(open(p)) if os.path.exists(p) else {}


def of(c, pid):
    return pid in c.props or pid in c.also or any(t[0] == pid for t in c.tags)


def classify(unit, pid, safety):
    """(failed obligations, undecided functions, proved functions) of pid."""
    u, rep, r = unit, unit["report"], unit["run"]
    mod = importlib.import_module("specs." + u["name"])
    fns = mod.FNS
    mine = [k for k, c in fns.items() if of(c, pid)]
    failed, undecided, proved = [], {}, []
    if u["error"]:
        return failed, {"%s::%s" % (u["name"], k): u["error"] for k in mine}, proved
    helpers = set(k.split("::")[-1] for k in rep["uncontracted"])
    support = [f for f in r.support["failed"]]
    for k in mine:
        q = "%s::%s" % (u["name"], k)
        c = fns[k]
        if k in rep["missing"]:
            undecided[q] = "no longer in the source"
            continue
        if k in rep["drift"]:
            undecided[q] = rep["drift"][k]
            continue
        if k in rep["undecided"]:
            undecided[q] = "no longer compiles with its contract woven in"
            continue
        if k in rep["trusted"] or k in rep.get("declared", ()):
            continue
        if not r.functions.get(k, {}).get("verus"):
            undecided[q] = "the verifier generated no obligations for it"
            continue
        fl = r.functions[k]["failed"]
        tagged = [t for t in c.tags if t[0] == pid]
        if c.tags:
            fl = [f for f in fl if any(t[1] in f["clause"] for t in tagged or c.tags) == bool(tagged) or f["undecided"]]
        if not fl:
            if support:
                undecided[q] = "a supporting lemma failed: %s" % support[0]["clause"]
            else:
                proved.append(q)
            continue
        hard = [f for f in fl if not f["undecided"]]
        body = fn_text(u["text"], k)
        called = sorted((names_of(body) & helpers))
        base = calls().get(u["name"])
        foreign = [] if base is None else sorted(names_of(body) - set(base) - KNOWN - helpers)
        if not hard:
            undecided[q] = "solver gave up: %s" % fl[0]["message"]
        elif called:
            undecided[q] = "calls functions without a contract: %s" % ", ".join(called)
        elif foreign:
            undecided[q] = "calls functions the contracts were not written for (theirs may be too weak): %s" % ", ".join(foreign)
        elif pid not in c.props and not tagged:
            undecided[q] = "an obligation of this shared function failed (see the property it belongs to)"
        elif safety and not [f for f in hard if any(s in f["message"] for s in SAFETY)]:
            undecided[q] = "a functional obligation failed; none about safety"
        else:
            pick = [f for f in hard if not safety or any(s in f["message"] for s in SAFETY)]
            failed.append((q, pick))
    return failed, undecided, proved


def fn_text(text, key):
    m = re.search(r"^\s*//@fn %s @.*?$" % re.escape(key), text, re.M)
    if not m:
        return ""
    return text[m.end():].split("//@end", 1)[0]


# -------------------------------------------------------------- harness side

def target_dir(feats):
    return os.path.join(BUILD, "harness" + ("-" + "-".join(feats) if feats else ""))


def build_harness(feats):
    t = target_dir(feats)
    cmd = ["cargo", "build", "--offline", "-q"]
    if feats:
        cmd += ["--features", ",".join(feats)]
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=dict(ENV, CARGO_TARGET_DIR=t), capture_output=True, text=True)
    if p.returncode != 0:
        return None, p.stderr[:20000]
    return os.path.join(t, "debug/harness"), ""


def derive_failure(err):
    """A compile error that comes out of the expansion of one of the derives:
    (the type it happened on, the error)."""
    for m in re.finditer(r"^error.*?(?=^error|\Z)", err, re.M | re.S):
        t = m.group(0)
        loc = re.search(r"--> (?:\S*/)?(src/(?:gen|derive)\.rs):(\d+)", t)
        if loc and ("proc-macro derive panicked" in t or "in the derive macro" in t or "in this derive macro" in t or "derive macro" in t):
            lines = open(os.path.join(VERIF, "harness", loc.group(1))).read().split("\n")
            n = int(loc.group(2)) - 1
            return "\n".join(lines[max(0, n - 1):n + 12]), t.strip()[:1500]
    return None


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_harness(exe, pid, tier, timeout):
    """A dict with the report, or the failing case of a crash or hang."""
    def go(trace):
        cmd = [exe, pid, tier, str(SEED)] + ([trace] if trace else [])
        try:
            p = subprocess.run(cmd, capture_output=True, timeout=timeout, env=ENV, preexec_fn=limits, cwd=verus._tmp())
            return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired as e:
            return "timeout", (e.stdout or b"").decode(errors="replace"), ""

    rc, out, err = go(None)
    m = re.search(r"^REPORT (\{.*\})$", out, re.M)
    if m and rc in (0, 1):
        d = json.loads(m.group(1))
        return d
    if rc == "timeout" or rc == 2 or rc == 3:
        return dict(error="harness ended with %s: %s" % (rc, err[-500:]))
    # crash (signal, abort, stack overflow) or hang: find the input
    with tempfile.TemporaryDirectory(dir=verus._tmp()) as d:
        t = os.path.join(d, "trace")
        rc2, out2, err2 = go(t)
        inp = open(t, errors="replace").read() if os.path.exists(t) else ""
    why = "does not terminate" if "HANG" in out2 else "the process dies (%s) %s" % (rc2, err2.strip()[-300:])
    if rc2 in (0, 1):
        return dict(error="harness ended with %s once and with %s the second time" % (rc, rc2))
    return dict(property=pid, evaluations=0, distinct_nontrivial=0, rules=[], samples=[], fails=[dict(case=0, input=inp[:20000], message=why)])


# ------------------------------------------------------------------ findings

def known_findings():
    """finding: property=<id> match=<text the failing input or obligation contains> <what fails>"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"^finding: property=(\S+) match=(\S+) (.*)$", l.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    pid = sys.argv[1]
    tier = TIER if TIER in ("quick", "thorough") else "quick"
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    info = PROPS[pid]
    t0 = time.time()
    build_dump()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)

    pool = cf.ThreadPoolExecutor(max_workers=8)
    futs = [pool.submit(run_unit, u) for u in info["units"]]
    vac = [pool.submit(run_unit, u, True) for u in info["units"]] if tier == "thorough" else []

    harness = []

    def bounded():
        for feats in info["features"]:
            exe, e = build_harness(feats)
            if not exe and "derive" in feats:
                hit = derive_failure(e)
                if info["program"] and hit:
                    harness.append((feats, dict(evaluations=1, distinct_nontrivial=1, rules=["every generated type must compile"], samples=[hit[0]],
                                                fails=[dict(case=0, input=hit[0], message=hit[1])])))
                    continue
                if not info["program"]:
                    # the part of the run that uses derived types is left out
                    harness.append((feats, dict(error="the harness does not build with derived types: " + e)))
                    feats = tuple(x for x in feats if x != "derive")
                    exe, e = build_harness(feats)
            if not exe:
                harness.append((feats, dict(error="the harness does not build: " + e)))
                continue
            harness.append((feats, run_harness(exe, pid, tier, 600 if tier == "thorough" else 240)))

    hf = pool.submit(bounded) if info["harness"] else None
    df = pool.submit(derives.run, pid, tier, SEED, verus._tmp(), lambda: time.time() - t0 > 500) if pid in DERIVED or pid in derives.SURFACE else None
    units = [f.result() for f in futs]
    if hf:
        hf.result()
    if df:
        harness.append(((), df.result()))

    failed, undecided, proved = [], {}, []
    for u in units:
        f, n, p = classify(u, pid, info["safety"])
        failed += f
        undecided.update(n)
        proved += p
    fails = [(feats, x) for feats, h in harness for x in h.get("fails", [])]

    # obligations, for the functions this property depends on and their lemmas
    obl = dis = 0
    theorems = {}
    fns, rewrites, dropped, trusted, solver, wall = {}, [], [], set(), 0.0, 0.0
    for u in units:
        rep, r = u["report"], u["run"]
        if r is None:
            continue
        mod = importlib.import_module("specs." + u["name"])
        for k, c in mod.FNS.items():
            if of(c, pid) and k in r.functions:
                q = "%s::%s" % (u["name"], k)
                e = r.functions[k]
                n = e["obligations"]
                obl += n
                ok = q in proved
                if ok:
                    dis += n - len(e["failed"])
                else:
                    dis += max(0, n - len(e["failed"])) if (e["failed"] and not u["error"]) else 0
                fns[q] = dict(obligations=n, solver_ms=round(e["time_ms"], 1), rlimit=e["rlimit"],
                              status="proved" if ok else ("trusted" if k in rep["trusted"] else "declaration (checked at its implementations)" if k in rep.get("declared", ()) else "failed" if any(q == a for a, _ in failed) else "undecided: " + undecided.get(q, "")))
        for t in getattr(mod, "THEOREMS", {}).get(pid, []):
            there = bool(re.search(r"\bproof fn %s\b" % t, u["text"]))
            bad = u["error"] or (r.support["failed"] and "a lemma failed: " + r.support["failed"][0]["clause"]) or (not there and "not in the unit")
            theorems["%s::%s" % (u["name"], t)] = "proved" if not bad else "undecided: " + bad
        s = r.support
        obl += s["obligations"]
        dis += max(0, s["obligations"] - len(s["failed"])) if not u["error"] else 0
        solver += r.solver_ms
        wall += r.wall
        rewrites += rep["rewrites"]
        dropped += rep["dropped"]
        trusted |= set(verus.scan(u["text"]))

    known = [k for k in known_findings() if k[0] == pid]
    hits, new_w = [], []
    for feats, x in fails:
        h = [k for k in known if k[1] in x["input"]]
        (hits if h else new_w).append((feats, x, h))
    new_f = []
    for q, fl in failed:
        h = [k for k in known if k[1] == q]
        if h:
            hits.append((None, dict(input=q), h))
        else:
            new_f.append((q, fl))

    cov = dict(
        obligations=obl, discharged=dis, checker_cmd="; ".join(u["run"].cmd for u in units if u["run"]) or "none",
        backend="z3 (bundled with Verus 0.2026.09.13)", solver_ms=round(solver, 1), verus_wall_s=round(wall, 1),
        trusted_base=sorted(trusted), functions_under_contract=fns, theorems=theorems, proved=len(proved), undecided=undecided,
        rewrites=sorted(set(rewrites)), dropped=sorted(set(dropped)),
        explanation="Obligations were generated by Verus from /repo's current source on this run and discharged function by function for all inputs. "
                    "evaluations/distinct_nontrivial/rule/samples describe a bounded run of the compiled crates that stands beside the proof to find failing inputs; it proves nothing.")
    ev = sum(h.get("evaluations", 0) for _f, h in harness)
    if info["level"] == "translation_validation":
        gen = set(x for u in units for x in u["report"].get("programs", []))
        cov.update(programs=len(gen), disagreements_checked=len(fns), generated_types=sorted(gen))
    if not info["units"]:
        cov = dict(explanation="A bounded run of the compiled crates against an independent model; it proves nothing.")
    if info["harness"]:
        cov.update(evaluations=ev, distinct_nontrivial=sum(h.get("distinct_nontrivial", 0) for _f, h in harness),
                   rule="; ".join(dict.fromkeys(r for _f, h in harness for r in h.get("rules", []))) or "no run",
                   samples=[s for _f, h in harness for s in h.get("samples", [])][:10] or ["none"],
                   bounded_errors=[h["error"] for _f, h in harness if h.get("error")])
    if vac:
        v = []
        for f in vac:
            u = f.result()
            if u["run"] is None or u["error"]:
                v.append("%s: %s" % (u["name"], u["error"]))
                continue
            bad = [k for k in u["report"]["functions"] if not u["run"].functions.get(k, {}).get("failed")]
            v += ["%s::%s has contradictory preconditions" % (u["name"], k) for k in bad]
        cov["vacuity"] = v or ["assert(false) at the start of every function under contract fails, as it must"]
        for x in v:
            log("vacuity:", x)

    violations = len(new_w) + (len(new_f) if not new_w else 0)
    evidence = dict(property=pid, tier=tier, seed=SEED, level=info["level"], coverage=cov,
                    assumptions=info["unchecked"] + sorted(trusted), wall_s=round(time.time() - t0, 2), violations=violations)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    for _feats, x, h in hits:
        print("KNOWN-FINDING: property=%s %s" % (pid, h[0][2]))
    log("%s %s: %d functions proved, %d undecided, %d failed, %d/%d obligations, %d cases, %.1f s" %
        (pid, tier, len(proved), len(undecided), len(failed), dis, obl, ev, time.time() - t0))
    for q, w in undecided.items():
        log("  undecided", q, w)
    for q, w in theorems.items():
        if w != "proved":
            log("  undecided", q, w)
    for _f, h in harness:
        if h.get("error"):
            log("  bounded:", h["error"])

    if new_w or new_f:
        path = os.path.join(rdir, "%s.txt" % pid)
        with open(path, "w") as f:
            f.write("property %s\n" % pid)
            for feats, x, _h in new_w:
                f.write("\nfailing input (case %s%s):\n%s\nwhat happens: %s\n" % (x["case"], ", features " + ",".join(feats) if feats else "", x["input"], x["message"]))
                f.write("replay: compile the program above against deser with its derive feature\n" if x["input"].startswith("a derived type:") else "replay: cd %s/harness && CARGO_TARGET_DIR=%s cargo run --offline -q%s -- %s %s %d\n" % (
                    VERIF, target_dir(feats), " --features " + ",".join(feats) if feats else "", pid, tier, SEED))
            for q, fl in new_f:
                f.write("\nfailed obligation in %s\n" % q)
                for x in fl:
                    f.write("%s\n%s\n%s\n" % (x["message"], x["clause"], x["rendered"]))
            if not new_w:
                f.write("\nThe verifier gives no concrete input and the bounded run found none.\n")
        for q, fl in new_f:
            print("failed obligation: %s: %s" % (q, fl[0]["message"]))
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if new_w else " no-failing-input-found"))
        return 1
    if not proved and not ev:
        log("nothing was decided")
        return 2
    return 0


def record_shapes():
    build_dump()
    d, c = {}, {}
    for f in sorted(os.listdir(os.path.join(VERIF, "specs"))):
        if f.endswith(".py") and f != "__init__.py":
            mod = importlib.import_module("specs." + f[:-3])
            if hasattr(mod, "build"):
                rep = weave.new_report()
                text = mod.build(rep)
                c[f[:-3]] = sorted(set().union(*[names_of(fn_text(text, k)) for k in mod.FNS]))
                d[f[:-3]] = {k: v for k, v in rep["kinds"].items() if v}
    json.dump(d, open(os.path.join(VERIF, "specs/shapes.json"), "w"), indent=1, sort_keys=True)
    json.dump(c, open(os.path.join(VERIF, "specs/calls.json"), "w"), indent=1, sort_keys=True)


if __name__ == "__main__":
    if sys.argv[1] == "--record-shapes":
        record_shapes()
    else:
        sys.exit(main())
