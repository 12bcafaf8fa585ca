#!/usr/bin/env python3
"""check.py <property id>: decide one property of knx-ip-client from /repo's current working tree.

1. kvx extracts the functions of /repo mechanically and weaves the contracts of /verif/contracts around
   them; Verus has to discharge every obligation (floating point functions: Kani, whole domain).
2. Independently of the verdict the real crate is driven by kreplay (reference layouts written from the
   KNX specification) for a short time: it looks for a failing input to go with a failed obligation.
3. exit 0: every obligation of the property was discharged, or the ones that could not be attempted are
   listed as bounded in the evidence.  exit 1: VIOLATION line.  exit 2: the check could not answer at all.
"""
import json, os, re, subprocess, sys, time, threading, hashlib, shutil

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KNX_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS  # noqa: E402

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
T0 = time.time()
LOG = []


def log(*a):
    s = " ".join(str(x) for x in a)
    LOG.append(s)
    print("# " + s, flush=True)


def run(cmd, timeout, cwd=None, env=None):
    """(rc, stdout, stderr); rc None on timeout; the whole process group is ended"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors="replace", start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o or "", e or ""


# ------------------------------------------------------------------ building
def build(manifest, what, release, timeout=600):
    cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", manifest] + (["--release"] if release else [])
    rc, o, e = run(cmd, timeout)
    if rc != 0:
        log(f"building {what} failed:", (e or o)[-1500:])
    return rc == 0


# ------------------------------------------------------------------ Verus
class Proof:
    """the result of one deductive run over the whole extracted crate"""
    def __init__(self):
        self.ok = False            # extraction and Verus produced a verdict
        self.why = ""
        self.fns = {}              # key -> map entry
        self.failed = {}           # key -> [ {kind,msg,line,text,safety} ]
        self.rlimit = set()
        self.bitwise = []          # discharged with the lemmas of contracts/bits.rs only
        self.quarantined = {}      # key -> reason
        self.missing = []
        self.success = {}          # key -> (bool, micros, rlimit) from Verus' function breakdown
        self.aux = {}              # lemmas and prelude functions -> bool
        self.solver_ms = 0
        self.verified = 0
        self.errors = 0
        self.rules = {}
        self.cmd = ""
        self.output = ""
        self.new = set()           # functions the baseline does not have
        self.gen = ""
        self.src = REPO            # the tree kvx read: /repo, or its copy with new helpers inlined
        self.inlined = {}          # new helper -> call sites replaced by its body
        self.left = []             # call sites of new helpers that stay, and why


KVX = os.path.join(V, "tools/kvx/target/debug/kvx")


def extract(out, mp, quar, vac=False, src=None):
    cmd = [KVX, src or REPO, os.path.join(V, "contracts"), os.path.join(V, "contracts/prelude.rs"), out, mp]
    for q in quar:
        cmd += ["--quarantine", q]
    if vac:
        cmd.append("--vacuity")
    return run(cmd, 60)


def regions(gen):
    """[(start_line, end_line, key)] of the marked functions"""
    r, stack = [], []
    for i, l in enumerate(gen.split("\n"), 1):
        for m in re.finditer(r"/\*@([FE]):(.*?)@\*/", l):
            if m[1] == "F":
                stack.append((m[2], i))
            else:
                while stack:
                    k, s = stack.pop()
                    if k == m[2]:
                        r.append((s, i, k))
                        break
    return r


def key_at(regs, line):
    best = None
    for s, e, k in regs:
        if s <= line <= e and (best is None or e - s < best[1] - best[0]):
            best = (s, e, k)
    return best[2] if best else None


SAFETY = ("arithmetic underflow/overflow", "division by zero", "bit shift underflow", "out of bounds")


def verus(gen_path, extra, timeout=400):
    cmd = ["verus", gen_path, "--output-json", "--time-expanded", "--error-format=json", "--no-report-long-running"] + extra
    rc, o, e = run(cmd, timeout, cwd=os.path.dirname(gen_path))
    diags = []
    for l in e.split("\n"):
        if l.startswith("{"):
            try:
                d = json.loads(l)
                if d.get("level") == "error":
                    diags.append(d)
            except ValueError:
                pass
    try:
        j = json.loads(o[o.index("{"):])
    except ValueError:
        j = None
    return rc, j, diags, e


def prove(work):
    """new helper functions have no contract: their calls are inlined, so that the caller's contract decides them"""
    base = json.load(open(os.path.join(V, "contracts/baseline.json")))["fns"]
    known, inl = os.path.join(work, "known.json"), os.path.join(work, "inlined")
    json.dump(sorted(base), open(known, "w"))
    rc, o, e = run([KVX, "--inline", REPO, known, inl], 60)
    try:
        r = json.loads(o)
    except ValueError:
        r = {"inlined": {}, "left": [], "patterns": 0}
    new = lambda P: {k for k in P.fns if k not in base}
    if not r["inlined"] and not r["patterns"]:
        P = prove_tree(work, REPO)
        P.new, P.left = new(P), r["left"]
        return P
    if r["patterns"]:
        log(f"{r['patterns']} slice and reference patterns written with indices and dereferences")
    if r["inlined"]:
        log("new helpers inlined:", ", ".join(f"{k} ({n})" for k, n in r["inlined"].items()))
    P = prove_tree(work, inl)
    P.new, P.left = new(P), r["left"]
    P.inlined = r["inlined"]
    if P.ok and not P.failed and not P.quarantined:
        return P
    os.makedirs(os.path.join(work, "plain"))
    Q = prove_tree(os.path.join(work, "plain"), REPO, once=True)
    Q.new, Q.left = new(Q), r["left"]
    if not P.ok:
        return Q
    if Q.ok and not any(k in Q.failed or k in Q.quarantined for k in Q.new):
        for k in list(P.failed) + list(P.quarantined):
            if k not in Q.failed and k not in Q.quarantined and Q.success.get(k, (False,))[0]:
                log("discharged without inlining:", k)
                P.failed.pop(k, None)
                P.quarantined.pop(k, None)
                P.rlimit.discard(k)
                P.success[k], P.fns[k] = Q.success[k], Q.fns[k]
    return P


def prove_tree(work, src, once=False):
    P = Proof()
    P.src = src
    quar = {}
    gen_path, map_path = os.path.join(work, "gen.rs"), os.path.join(work, "map.json")
    for attempt in range(8):
        rc, o, e = extract(gen_path, map_path, quar, src=src)
        if rc != 0:
            # kvx names the function it could not place
            ks = [k for k in re.findall(r"@key (\S+)", o + e) if k not in quar]
            if ks:
                for k in ks:
                    quar[k] = "not extractable: " + (o + e)[:200]
                continue
            P.why = "extraction failed: " + (o + e)[-400:]
            return P
        m = json.load(open(map_path))
        P.fns = {f["key"]: f for f in m["functions"]}
        P.missing, P.rules = m["missing"], m["rules"]
        P.gen = open(gen_path).read()
        regs = regions(P.gen)
        rc, j, diags, err = verus(gen_path, [])
        P.cmd = f"kvx {REPO} contracts -> gen.rs; verus gen.rs --output-json --time-expanded --error-format=json"
        vr = (j or {}).get("verification-results", {})
        if j is None or rc is None or vr.get("encountered-vir-error") or "function-breakdown" not in json.dumps(j.get("times-ms", {})):
            # not verified at all: rustc or VIR errors. Take the functions they are in out of Verus' reach.
            bad = {}
            for d in diags:
                for s in d.get("spans", []):
                    k = key_at(regs, s["line_start"]) if s["file_name"].endswith("gen.rs") else None
                    if k and k not in quar:
                        bad.setdefault(k, d["message"])
            if not bad:
                bad = {k: w for k, w in bisect_panic(work, quar, regs, err, src).items() if k not in quar}
            if not bad:
                P.why = "Verus gave no verdict: " + " | ".join(d["message"] for d in diags[:4]) + " " + err[-300:]
                return P
            quar.update(bad)
            log("outside Verus' reach:", "; ".join(f"{k} ({w[:80]})" for k, w in bad.items()))
            continue
        break
    else:
        P.why = "functions kept failing to compile: " + ", ".join(quar)
        return P
    P.ok, P.quarantined = True, quar
    collect(P, j, diags, err, regs)
    # rule out solver noise: a failure has to persist under another seed and a larger resource limit
    if not once and (P.failed or not all(P.aux.values())):
        first = dict(P.failed)
        P2 = Proof()
        P2.fns = P.fns
        rc, j2, d2, e2 = verus(gen_path, ["--rlimit", "60", "--smt-option", "smt.random_seed=7"], timeout=300)
        if j2 is not None and rc is not None:
            collect(P2, j2, d2, e2, regs)
            for k in P.aux:
                P.aux[k] = P.aux[k] or P2.aux.get(k, False)
            for k in list(P.failed):
                if k not in P2.failed and P2.success.get(k, (True,))[0]:
                    log("solver noise, discharged on retry:", k)
                    del P.failed[k]
                    P.rlimit.discard(k)
                    P.success[k] = P2.success.get(k, P.success.get(k))
                elif k in P.rlimit and k not in P2.rlimit:
                    P.rlimit.discard(k)
                    P.failed[k] = P2.failed.get(k, first[k])
    if P.failed and not once:
        bit_by_bit(work, P)
    P.quarantined = quar
    return P


BITS = re.compile(r"&\s*(0x|0b|\d|!)|[\w)\]]\s*&\s*[\w(]|<<|>>|\^|\|=|&=|[\w)\]]\s*\|\s*[\w(]|%|/\s*\d")


def bit_by_bit(work, P):
    """second proof strategy for functions with bit operations: the lemmas of contracts/bits.rs (proved here as
    well) tell the solver every bit operation bit by bit. It can only discharge obligations, never fail them."""
    bits = open(os.path.join(V, "contracts/bits.rs")).read()
    mods = re.findall(r"/\*@M:([\w:]+)@\*/", P.gen)
    keys = [k for k in P.failed if BITS.search(body_of(P, k)) and not any(x["kind"].startswith("precondition") and not x["safety"] for x in P.failed[k])][:6]
    if not keys:
        return
    paths = {}
    for g in ("group_bits_div", "group_bits"):
        paths[g] = os.path.join(work, g + ".rs")
        open(paths[g], "w").write(P.gen.replace("crate::vspec::group_spec}", "crate::vspec::group_spec, crate::vbits::%s}" % g) + bits)
    lem = os.path.join(work, "bits_lemmas.rs")
    open(lem, "w").write("use vstd::prelude::*;\n" + bits + "fn main() {}\n")

    def one(job):
        k, g = job
        if k is None:
            rc, j, d, e = verus(lem, [], timeout=240)
            r = (j or {}).get("verification-results", {})
            return job, rc == 0 and r.get("errors") == 0 and r.get("verified", 0) > 100, None
        m = max((m for m in mods if k.startswith(m + "::")), key=len, default=None)
        if m is None:
            return job, False, None
        rc, j, d, e = verus(paths[g], ["--verify-only-module", m, "--verify-function", k[len(m) + 2:], "--rlimit", "40"], timeout=150)
        Q = Proof()
        Q.fns = P.fns
        try:
            collect(Q, j, d, e, regions(open(paths[g]).read()))
        except (KeyError, TypeError):
            return job, False, None
        return job, rc == 0 and not Q.failed and k in Q.success and Q.success[k][0], Q.success.get(k)

    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, [(None, None)] + [(k, g) for k in keys for g in paths]))
    if not res[0][1]:
        log("the bit lemmas were not accepted")
        return
    for (k, g), ok, t in res[1:]:
        if ok and k in P.failed:
            log("discharged bit by bit:", k)
            del P.failed[k]
            P.rlimit.discard(k)
            P.success[k] = t
            P.bitwise.append(k)


def collect(P, j, diags, err, regs):
    t = j["times-ms"]
    P.solver_ms = t.get("smt", {}).get("smt-run", 0)
    P.verified, P.errors = j["verification-results"].get("verified", 0), j["verification-results"].get("errors", 0)
    for mod in t.get("smt", {}).get("smt-run-module-times", []):
        for f in mod.get("function-breakdown", []):
            n = re.sub(r"^\w+::", "", f["function"])
            ok = bool(f.get("success"))
            if n in P.fns:
                o = P.success.get(n, (True, 0, 0))
                P.success[n] = (o[0] and ok, o[1] + f.get("time-micros", 0), o[2] + f.get("rlimit", 0))
            else:
                P.aux[n] = P.aux.get(n, True) and ok
    for d in diags:
        msg = d["message"]
        if msg.startswith("aborting due"):
            continue
        sp = d.get("spans", [])
        # the function whose body was being checked: the body span, else any span inside a function
        ks = []
        for s in sorted(sp, key=lambda s: s["is_primary"]):
            k = key_at(regs, s["line_start"]) if s["file_name"].endswith("gen.rs") else None
            if k:
                ks.append((k, s))
        bodies = [(k, s) for k, s in ks if not P.success.get(k, (True,))[0]] or ks
        rl = "rlimit" in msg.lower() or "resource limit" in msg.lower()
        safety = any(x in msg for x in SAFETY)
        if msg.startswith("precondition not satisfied"):
            callee = [s for s in sp if "precondition" in (s.get("label") or "")]
            safety = any(key_at(regs, s["line_start"]) is None for s in callee) if callee else True
        if not bodies:
            continue
        k, s = bodies[0]
        prim = next((x for x in sp if x["is_primary"]), s)
        P.failed.setdefault(k, []).append(dict(
            kind=msg, safety=safety, rlimit=rl,
            text=" ".join(x["text"].strip() for x in prim.get("text", []))[:300],
            at=" ".join(x["text"].strip() for x in s.get("text", [])[:1])[:200],
            rendered=d.get("rendered", "")[:3000]))
        if rl:
            P.rlimit.add(k)
    for k, (ok, *_r) in P.success.items():
        if not ok and k not in P.failed:
            P.failed[k] = [dict(kind="obligation failed", safety=False, rlimit=False, text="", at="", rendered="")]
    P.output = "\n".join(d.get("rendered", "") for d in diags)


def bisect_panic(work, quar, regs, err, src):
    """Verus crashed without a span: find the functions whose removal lets it run"""
    keys = [k for _, _, k in regs if k not in quar]
    changed = changed_functions(work, keys)
    res = {}
    for k in changed[:12]:
        rc, o, e = extract(os.path.join(work, "b.rs"), os.path.join(work, "b.json"), list(quar) + [k], src=src)
        if rc != 0:
            continue
        rc, j, d, er = verus(os.path.join(work, "b.rs"), ["--no-verify"], timeout=120)
        if j is not None and not j.get("verification-results", {}).get("encountered-vir-error") and "panicked" not in er:
            res[k] = "Verus crashed on it"
            return res
    if len(changed) > 1:
        return {k: "Verus crashed" for k in changed}
    return res


def fn_hashes(gen):
    r = {}
    for s, e, k in regions(gen):
        body = "\n".join(gen.split("\n")[s - 1:e])
        r[k] = hashlib.sha1(re.sub(r"\s+", "", body).encode()).hexdigest()[:12]
    return r


def changed_functions(work, keys):
    base = json.load(open(os.path.join(V, "contracts/baseline.json")))["fns"]
    now = fn_hashes(open(os.path.join(work, "gen.rs")).read())
    return [k for k in keys if now.get(k) != base.get(k)]


def closure(prop, P):
    """functions whose contracts the property's proof rests on"""
    deps = json.load(open(os.path.join(V, "contracts/deps.json")))
    roots = [k for k, f in P.fns.items() if prop in (f.get("props") or [])]
    seen, todo = set(), list(roots)
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        todo += [d for d in deps.get(k, []) if d in P.fns]
    return set(roots), seen


def body_of(P, key):
    for s, e, k in regions(P.gen):
        if k == key:
            return "\n".join(P.gen.split("\n")[s - 1:e])
    return ""


def undecided(P, key):
    """why a failed obligation of this function says nothing about its behaviour (None: it does)"""
    if key in P.quarantined:
        return "not within Verus' reach: " + P.quarantined[key][:120]
    if key in P.rlimit:
        return "solver resource limit"
    f = P.fns.get(key, {})
    if f.get("nloops") != f.get("contract_loops") and f.get("contract_loops") is not None and (f.get("nloops") or f.get("contract_loops")):
        return f"has {f.get('nloops')} loops, the contract has invariants for {f.get('contract_loops')}"
    b = body_of(P, key)
    b = b[b.find("@*/") + 3:]
    for k in P.new:
        if calls(b, k):
            return f"calls {k.split('::')[-1]}, which has no contract"
    return None


def calls(body, key):
    return re.search(r"\b%s\s*(::<[^>]*>)?\s*\(" % re.escape(key.split("::")[-1]), body) is not None


def called(P, key, clos):
    """does a function of clos call this one, directly or through new functions?"""
    seen, todo = set(), [key]
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        for c in P.fns:
            b = body_of(P, c)
            if c != k and calls(b[b.find("@*/") + 3:], k):
                if c in clos:
                    return True
                if c in P.new:
                    todo.append(c)
    return False


# ------------------------------------------------------------------ search on the real code
KREPLAY = os.path.join(V, "replay/target/release/kreplay")
INT = re.compile(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:u8|u16|u32|u64|usize|i16|i32|i64)?(?![\w.]|\.\d)")
FLT = re.compile(r"(?<![\w.])(\d[\d_]*\.\d+(?:e-?\d+)?)")


def literals():
    ints, flts = set(), set()
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in sorted(fs):
            if f.endswith(".rs"):
                s = open(os.path.join(d, f), errors="replace").read().split("#[cfg(test)]")[0]
                s = re.sub(r"//.*", "", s)
                for m in INT.finditer(s):
                    try:
                        ints.add(int(m[1].replace("_", ""), 0))
                    except ValueError:
                        try:
                            ints.add(int(m[1].replace("_", "")))
                        except ValueError:
                            pass
                for m in FLT.finditer(s):
                    flts.add(m[1])
    return ints, flts


def search_env():
    """literals that are new with respect to the baseline steer the generator"""
    base = json.load(open(os.path.join(V, "contracts/baseline.json")))
    i, f = literals()
    i = {x for x in i if x < 2 ** 32} - set(base["ints"])
    f = f - set(base["floats"])
    d = sorted({y for x in i for y in (x, x + 1, max(0, x - 1))} | {int(float(x)) for x in f if float(x) < 1e9})[:200]
    e = dict(ENV)
    if d:
        e["KREPLAY_DICT"] = ",".join(map(str, d))
    if f:
        e["KREPLAY_FDICT"] = ",".join(sorted(f)[:50])
    return e


def search(prop, seed, secs, extra=None):
    env = search_env()
    env.update(extra or {})
    rc, o, e = run([KREPLAY, "search", prop, str(seed), str(secs), "8"], secs + 240, env=env)
    counts = {m[1]: int(m[2]) for m in re.finditer(r"^COUNT (\S+) (\d+)", o, re.M)}
    ces = re.findall(r"^CE (\S+) (\d+) (.*)$", o, re.M)
    if rc not in (0, 1) and not ces:
        log("search ended abnormally", rc, e[-300:])
        if rc is not None and rc < 0 or "overflowed its stack" in e or rc == 134:
            ces = [("search", "0", "the process was ended by a signal: " + e[-200:])]
        else:
            return None, []
    steer = {k: env[k] for k in ("KREPLAY_DICT", "KREPLAY_FDICT", "KREPLAY_STRIDE") if k in env}
    return counts, [(a, b, c, steer) for a, b, c in ces]


# ------------------------------------------------------------------ Kani
def kani(harnesses, timeout):
    """{harness: (verdict, seconds, failed checks, tail)}: verdict ok/failed/unknown"""
    res = {}
    procs = []
    target = os.path.join(V, "kani/target")
    # compile once, then the harnesses in parallel
    for i, h in enumerate(harnesses):
        t = time.time()
        cmd = ["cargo", "kani", "--manifest-path", os.path.join(V, "kani/Cargo.toml"), "-Z", "stubbing", "--harness", h]
        if i == 0:
            rc, o, e = run(cmd, timeout)
            res[h] = kani_verdict(rc, o, e, time.time() - t)
            if res[h][0] == "unknown" and "Checking harness" not in o:
                for h2 in harnesses[1:]:
                    res[h2] = ("unknown", 0, [], "did not build")
                return res
        else:
            th = threading.Thread(target=lambda h=h, cmd=cmd, t=t: res.__setitem__(h, kani_verdict(*run(cmd, timeout), time.time() - t)))
            th.start()
            procs.append(th)
    for th in procs:
        th.join()
    return res


def kani_verdict(rc, o, e, secs):
    checks = re.findall(r"Failed Checks: (.*)", o)
    n = re.findall(r"\*\* (\d+) of (\d+) failed", o)
    n = (int(n[-1][0]), int(n[-1][1])) if n else (0, 0)
    if "VERIFICATION:- SUCCESSFUL" in o:
        return ("ok", secs, n, o[-600:])
    if "VERIFICATION:- FAILED" in o and checks and not all("unwinding assertion" in c or "not currently supported" in c or "unsupported" in c.lower() for c in checks):
        return ("failed", secs, checks, o[-3000:])
    return ("unknown", secs, checks, (o + e)[-1500:])


# ------------------------------------------------------------------ main
def trusted(P):
    """every assumed item in the verified file"""
    out = []
    for m in re.finditer(r"#\[verifier::external_body\][^\n]*?\b(fn|struct)\s+(\w+)|assume_specification[^\[]*\[\s*([^\]]+)\]|\badmit\s*\(|\bassume\s*\(|\baxiom fn (\w+)|external_type_specification[^\n]*struct\s+(\w+)", P.gen):
        s = m[2] or m[3] or m[4] or m[5] or m[0]
        out.append(s.strip())
    return sorted(set(out))


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    C = PROPS[prop]
    ev_path = os.path.join(V, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    work = os.path.join(V, "work", f"{prop}.{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        return decide(prop, tier, seed, C, ev_path, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, tier, seed, C, ev_path, work):
    state = {}

    def bg():
        state["replay"] = build(os.path.join(V, "replay/Cargo.toml"), "the replay crate", True)
    th = threading.Thread(target=bg)
    th.start()
    P = Proof()
    vac = None
    if C.get("verus", True):
        if build(os.path.join(V, "tools/kvx/Cargo.toml"), "kvx", False):
            P = prove(work)
            if P.ok:
                log(f"Verus: {P.verified} verified, {P.errors} errors, solver {P.solver_ms} ms, {len(P.quarantined)} functions out of reach")
                vac = vacuity(work, P)
        else:
            P.why = "kvx does not build"
        if not P.ok:
            log(P.why)
    K = kani(C["kani"], C.get("kani_timeout", 600) if tier == "quick" else 3000) if C.get("kani") else {}
    for h, r in K.items():
        log(f"Kani {h}: {r[0]} in {r[1]:.1f} s")
    th.join()

    # verdict of the proofs
    roots, clos = closure(prop, P) if P.ok else (set(), set())
    broken, bounded, ex_ces = [], [], []
    only_safety = C.get("only_safety", False)
    if C.get("verus", True):
        if not P.ok:
            bounded.append(("all functions", P.why))
        for k in sorted(clos):
            f = P.fns[k]
            if k in P.failed:
                fs = [x for x in P.failed[k] if x["safety"] or not only_safety]
                if not fs:
                    continue
                why = undecided(P, k)
                if why is None and k in C.get("exhaustive", ()) and state.get("replay"):
                    fam = C["exhaustive"][k]
                    rc, o, e = run([KREPLAY, "replay", fam, "0"], 120)
                    if rc == 0:
                        why = f"its whole finite domain was enumerated on the compiled code instead ({fam})"
                    elif o.startswith("FAILS"):
                        ex_ces.append((fam, "0", o[6:].strip(), {}))
                if why:
                    bounded.append((k, why))
                else:
                    broken.append((k, fs))
            elif k in P.quarantined:
                bounded.append((k, undecided(P, k)))
        for k in sorted(P.new):
            # a new function that could not be inlined: nothing is proved of it unless it verifies as it is
            if (k in P.failed or k in P.quarantined) and k not in clos and called(P, k, clos):
                bounded.append((k, "new function without a contract"))
        for m in P.missing:
            mk, mp = (m["key"], m.get("props", [])) if isinstance(m, dict) else (m, [])
            if prop in mp or not mp:
                bounded.append((mk, "the contract's function is not in the source any more"))
        for n, ok in P.aux.items():
            if not ok:
                bounded.append((n, "auxiliary lemma not discharged"))
        if vac:
            bounded += [(k, "its precondition is contradictory (vacuous)") for k in vac if k in clos]
    for h, r in K.items():
        if r[0] == "failed":
            broken.append(("kani::" + h, [dict(kind="Kani: " + "; ".join(map(str, r[2])), safety=True, rlimit=False, text=h, at="", rendered=r[3])]))
        elif r[0] == "unknown":
            bounded.append(("kani::" + h, "Kani gave no verdict: " + r[3][-200:].replace("\n", " ")))

    # search for a failing input on the real code
    counts, ces = None, []
    secs = C.get("secs", 6)
    if tier == "thorough":
        secs = C.get("thorough_secs", 120)
    if broken or bounded:
        secs = max(secs, C.get("deep_secs", 45))
    xenv = dict(C.get("thorough_env", {})) if tier == "thorough" or broken or bounded else {}
    if state.get("replay"):
        counts, ces = search(prop, seed, secs, xenv)
    else:
        log("no search: the replay crate does not build against this tree")

    ces = ex_ces + ces

    # report
    proved = sorted(k for k in clos if P.success.get(k, (False,))[0] and k not in P.failed and P.fns[k]["status"] == "contracted")
    obligations = sorted(k for k in clos if P.fns[k]["status"] in ("contracted", "quarantined"))
    external = sorted(k for k in clos if P.fns[k]["status"] == "external" and k not in P.quarantined)
    level = C["level"]
    if bounded and not broken and not ces:
        level = "other"
    kc = sum(r[2][1] for r in K.values() if r[0] == "ok" and isinstance(r[2], tuple))
    aux_ok = sum(1 for v in P.aux.values() if v)
    cov = dict(
        obligations=len(obligations) + len(P.aux) + len(K),
        discharged=len(proved) + aux_ok + sum(1 for r in K.values() if r[0] == "ok"),
        checker_cmd=(P.cmd + ("; " if K else "") if C.get("verus", True) else "") + ("cargo kani -Z stubbing --harness " + ",".join(K) if K else ""),
        trusted_base=C.get("trusted", []) + ([f"{len(trusted(P))} assumed items of the prelude (models of std, byteorder, snafu, tokio): " + ", ".join(trusted(P))] if P.gen else []),
        functions_under_contract=proved,
        functions_not_proved=[f"{k}: {w}" for k, w in bounded],
        external_functions=external,
        discharged_bit_by_bit=P.bitwise,
        new_helpers_inlined=P.inlined,
        new_helpers_not_inlined=P.left,
        backend={"verus": "z3 (Verus)" if C.get("verus", True) else None, "kani": {h: dict(verdict=r[0], seconds=round(r[1], 1), checks=r[2] if isinstance(r[2], tuple) else None) for h, r in K.items()}},
        kani_checks_discharged=kc,
        verus_units_verified=P.verified,
        solver_ms=P.solver_ms,
        solver_ms_this_property=round(sum(P.success[k][1] for k in clos if k in P.success) / 1000),
        vacuity=("every contracted function has a reachable body (assert(false) rejected in each)" if vac == [] else vac) if C.get("verus", True) else "assertions reachable (kani cover by failing assertions)",
        extraction_rules=P.rules,
        search=dict(seconds=secs, cases=counts or {}, exhaustive_families=C.get("exhaustive_families", []), role="looks for a failing input on the compiled crate; bounded, not counted as proof"),
        explanation="; ".join(f"{k}: {w} -> bounded by the search on the real code" for k, w in bounded) or "all obligations of the property discharged",
    )
    if counts:
        cov["evaluations"] = sum(counts.values())
    violations = 0
    lines = []
    rdir = os.path.join(V, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, prop + ".txt")
    known = known_findings(prop)
    for kf in known:
        lines.append(f"KNOWN-FINDING: property={prop} {kf}")
    ces = [c for c in ces if not any(kf.split(' ')[0] == c[0] for kf in known)]
    if ces:
        with open(rp, "w") as f:
            f.write(f"property {prop}: failing input on the real code\n")
            for fam, s, msg, steer in ces:
                f.write(f"{msg}\nreplay: {' '.join(k + '=' + v for k, v in steer.items())} {KREPLAY} replay {fam} {s}\n")
            for k, fs in broken:
                f.write(f"\nfailed obligation in {k} ({loc(P, k)}):\n")
                for x in fs:
                    f.write(x["rendered"] or x["kind"])
        lines.append(f"VIOLATION property={prop} replay={rp}")
        log("failing input:", ces[0][2][:400])
        violations = 1
    elif broken:
        with open(rp, "w") as f:
            f.write(f"property {prop}: obligation no longer discharged, no failing input found\n")
            for k, fs in broken:
                f.write(f"\nfailed obligation in {k} ({loc(P, k)}):\n")
                for x in fs:
                    f.write(f"{x['kind']}: {x['text']}\n{x['rendered']}\n")
        for k, fs in broken:
            log(f"failed obligation in {k}: {fs[0]['kind']}: {fs[0]['text'][:200]}")
        lines.append(f"VIOLATION property={prop} replay={rp} no-failing-input-found")
        violations = 1
    for k, w in bounded:
        log(f"bounded: {k}: {w}")
    ev = dict(property=prop, tier=tier, seed=seed, level=level if level in ("proof", "other", "exploration") else "other", coverage=cov,
              assumptions=C.get("assumptions", []), wall_s=round(time.time() - T0, 1), violations=violations)
    json.dump(ev, open(ev_path, "w"), indent=1)
    for l in lines:
        print(l, flush=True)
    if violations:
        return 1
    if counts is None and (not P.ok and C.get("verus", True)):
        print(f"# no answer: {P.why}")
        return 2
    log(f"{prop}: {len(proved)} functions proved, {len(bounded)} bounded, {sum((counts or {}).values())} cases searched, {time.time() - T0:.0f} s")
    return 0


def loc(P, k):
    f = P.fns.get(k)
    return f"{f['file']}:{f['lines'][0]}" + (" (new helpers inlined)" if P.inlined else "") if f else k


def known_findings(prop):
    p = os.path.join(V, "known-findings.txt")
    r = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", l.strip())
            if m and m[1] == prop:
                r.append(m[2])
    return r


def vacuity(work, P):
    """assert(false) at the start of every contracted function must be rejected: keys where it is accepted"""
    g = os.path.join(work, "vac.rs")
    rc, o, e = extract(g, os.path.join(work, "vac.json"), list(P.quarantined), vac=True, src=P.src)
    if rc != 0:
        return None
    rc, j, diags, err = verus(g, ["--no-auto-recommends-check"], timeout=300)
    if j is None:
        return None
    Q = Proof()
    Q.fns = P.fns
    try:
        collect(Q, j, diags, err, regions(open(g).read()))
    except KeyError:
        return None
    return sorted(k for k, f in P.fns.items() if f["status"] == "contracted" and k not in Q.failed)


if __name__ == "__main__":
    sys.exit(main())
