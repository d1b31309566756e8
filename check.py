#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]  -- decides one property of /repo's current tree.

Part A (deductive): `vx` extracts the functions named by the property's contract units from
/repo's sources, attaches the contracts of /verif/contracts, and Verus discharges every
obligation.  Part B (bounded, never counted as proved): executable versions of the same
contracts are evaluated against the real crate; B supplies the failing input when A fails,
and stands in for functions Verus cannot take.

exit 0: held; exit 1 + `VIOLATION property=.. replay=..`: broken.
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, ".build")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS=os.environ.get("RUSTFLAGS", ""), CARGO_TERM_COLOR="never")
T0 = time.time()


def sh(cmd, timeout, cwd=V, env=ENV):
    """run cmd; on a timeout the whole process group goes (the verifier's solvers would keep the pipes open)"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.communicate()
        return 124, "", "timeout"


def left(until, cap):
    """seconds for a step that has to be over `until` seconds after the start; the deeper tier has no such limit"""
    return cap if TIER == "thorough" else max(1, min(cap, until - (time.time() - T0)))


class Lock:
    def __init__(self, name):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


# ------------------------------------------------------------------ part A
def build_vx():
    with Lock("vx"):
        e = dict(ENV, CARGO_TARGET_DIR=os.path.join(B, "vx"))
        rc, o, er = sh(["cargo", "build", "--offline", "--release", "-q", "--manifest-path", "vx/Cargo.toml"], 600, env=e)
    return rc == 0, er


VX = os.path.join(B, "vx", "release", "vx")
TRUST = re.compile(r"assume_specification[^\[]*\[\s*([^\]]+)\]|external_body|external_type_specification|\badmit\s*\(|\bassume\s*\(|\bexternal_fn_specification|uninterp\s+spec\s+fn\s+(\w+)|\baxiom\s+fn\s+(\w+)")


def scan_trusted(text):
    out = []
    lines = text.split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("//"):
            continue
        m = TRUST.search(s)
        if not m:
            continue
        if m.group(1):
            out.append("assumed contract: " + m.group(1).strip())
        elif "external_type_specification" in s:
            continue
        elif "external_body" in s:
            j = i + 1
            while j < len(lines) and not re.search(r"\b(fn|struct|enum)\s+\w+", lines[j]):
                j += 1
            if j < len(lines):
                k = re.search(r"\b(fn|struct|enum)\s+(\w+)", lines[j])
                out.append(("trusted function: " if k.group(1) == "fn" else "opaque type: ") + k.group(2))
        elif m.group(2):
            out.append("uninterpreted: " + m.group(2))
        elif m.group(3):
            out.append("axiom: " + m.group(3))
        else:
            out.append("ASSUME: " + s)
    return sorted(set(out))


SEMANTIC = re.compile(r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|possible arithmetic|possible division|decreases not satisfied|unable to prove assertion|not satisfied|requires not satisfied|possible bit shift|unreachable")
LIMIT = re.compile(r"[Rr]esource limit|rlimit|timed? ?out|could not prove termination")


def run_unit(name, unit, prop, probe=False):
    """returns a dict describing what Verus said about one unit; an obligation counts as failed when two solver seeds agree"""
    r = run_unit_once(name, unit, prop, probe)
    if probe or not r["errors"]:
        return r
    r2 = run_unit_once(name, unit, prop, probe, ["--smt-option", "smt.random_seed=17"])
    if r2["status"] == "proved":
        r2["why"] = "second solver seed"
        return r2
    if r["status"] == "failed":
        k2 = {(f["fn"], f["clause"]) for f in r2["failed"]}
        if r2["status"] == "failed":
            r["failed"] = [f for f in r["failed"] if (f["fn"], f["clause"]) in k2]
        if not r["failed"] or r2["status"] != "failed":
            r["status"], r["failed"], r["why"] = "undecided", [], "the solver's answers differ between seeds"
    return r


def run_unit_once(name, unit, prop, probe=False, extra=[], comb=()):
    d = os.path.join(B, "p", prop)
    os.makedirs(d, exist_ok=True)
    tag = name + (".probe" if probe else "")
    out, rep = os.path.join(d, tag.replace(".", "_") + ".rs"), os.path.join(d, tag + ".json")
    res = {"unit": name, "status": "undecided", "why": "", "failed": [], "verified": 0, "errors": 0, "functions": [], "time_ms": 0, "trusted": [], "rewrites": {}}
    cmd = [VX, REPO, os.path.join(V, "contracts", unit["template"]), out, rep, "--features", "strict-protocol-compliance" + ("," + unit["features"] if unit.get("features") else "")]
    for f in comb:
        cmd += ["--comb-result", f]
    if probe:
        cmd.append("--probe")
    rc, o, e = sh(cmd, 120)
    if rc not in (0, 3) or not os.path.exists(rep):
        res["why"] = "extraction failed: " + (e or o).strip()[-1500:]
        return res
    r = json.load(open(rep))
    res["functions"] = r["functions"]
    res["rewrites"] = r["rewrites"]
    text = open(out).read()
    res["trusted"] = scan_trusted(text)
    if r["lost"]:
        res["why"] = "proof anchor lost: " + "; ".join(r["lost"])
        return res
    vc = ["verus", os.path.basename(out), "--output-json", "--error-format=json", "--time-expanded", "--multiple-errors", "5"]
    vc += ["--rlimit", str(unit.get("rlimit", 30))] + extra
    res["cmd"] = "cd %s && %s" % (d, " ".join(vc))
    t = time.time()
    rc, o, e = sh(vc, left(600, int(unit.get("timeout", 400))), cwd=d)
    res["wall_s"] = round(time.time() - t, 2)
    if rc == 124:
        res["why"] = "verus timed out"
        return res
    try:
        j = json.loads(o[o.index("{"):])
        vr = j["verification-results"]
    except Exception:
        res["why"] = "verus gave no result: " + e.strip()[-1500:]
        return res
    res["verified"], res["errors"] = vr.get("verified", 0), vr.get("errors", 0)
    try:
        res["time_ms"] = j["times-ms"]["smt"]["total"]
    except Exception:
        pass
    diags = []
    for l in e.split("\n"):
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except Exception:
                pass
    errs = [x for x in diags if x.get("level") == "error" and not x.get("message", "").startswith("aborting")]
    lim = [x for x in diags if LIMIT.search(x.get("message", ""))]
    if vr.get("encountered-vir-error") or (errs and not vr.get("verified") and not vr.get("errors")):
        res["why"] = "outside the verifier's language: " + "; ".join(x.get("message", "") for x in errs)[:1200]
        # a combinator that Option and Result share, read as Option's where it was Result's: the other reading, once
        other = set()
        for x in errs:
            if "mismatched types" in x.get("message", ""):
                for s in x.get("spans", []):
                    for f in r["functions"]:
                        if f["out_start"] <= s["line_start"] <= f["out_end"]:
                            other.add(f["fn"])
        if other and not comb:
            return run_unit_once(name, unit, prop, probe, extra, sorted(other))
        return res
    outl = text.split("\n")

    def owner(line):
        for f in r["functions"]:
            if f["out_start"] <= line <= f["out_end"]:
                return f
        return None

    def lemma(line):
        for i in range(min(line, len(outl)) - 1, -1, -1):
            m = re.search(r"\bfn\s+(\w+)", outl[i])
            if m:
                return m.group(1)
        return "?"
    sem = []
    tired = set()  # functions on which the solver gave up: what else it says about them decides nothing
    for x in lim:
        for s in x.get("spans", []):
            f = owner(s["line_start"])
            tired.add(f["fn"] if f else "lemma " + lemma(s["line_start"]))
    for x in errs:
        msg = x.get("message", "")
        if LIMIT.search(msg):
            continue
        sp = x.get("spans", [])
        prim = [s for s in sp if s.get("is_primary")] or sp
        lines = [s["line_start"] for s in prim if os.path.basename(s.get("file_name", "")) == os.path.basename(out)]
        alll = [s["line_start"] for s in sp if os.path.basename(s.get("file_name", "")) == os.path.basename(out)]
        f = None
        for ln in alll[::-1] + lines:
            f = owner(ln)
            if f:
                break
        # the function whose body is being checked: prefer the non-primary "at this exit"/"at end" span's owner
        ln = (lines or alll or [0])[0]
        lab = "; ".join((s.get("label") or "") for s in sp)
        clause = " | ".join(t["text"].strip() for s in sp for t in s.get("text", [])[:1])
        ok = bool(SEMANTIC.search(msg))
        # a clause may name the properties it states: `// [C13 C20]`; `// []` marks the conjunction of the clauses before it
        tags, conj = set(), False
        if "postcondition" in msg or "assertion" in msg:
            for s in sp:
                if os.path.basename(s.get("file_name", "")) == os.path.basename(out) and s["line_end"] - s["line_start"] < 12:
                    for l in outl[s["line_start"] - 1:s["line_end"]]:
                        m = re.search(r"//\s*\[([C0-9 ]*)\]", l)
                        if m:
                            tags |= set(m.group(1).split())
                            conj = conj or not m.group(1).strip()
        rec = {"fn": f["fn"] if f else "lemma " + lemma(ln), "file": f["file"] if f else unit["template"], "line": f["line"] if f else ln,
               "message": msg, "clause": clause[:600], "label": lab, "props": (f or {}).get("props") or [], "semantic": ok}
        # a lemma about the contracts alone says nothing about the code when the solver misses it
        if rec["fn"] in tired or f is None:
            rec["semantic"] = False
        if tags:
            rec["props"] = sorted(tags)
        rec["conjunction"] = conj and not tags
        sem.append(rec)
    told = {s["fn"] for s in sem if s["semantic"] and not s["conjunction"]}
    sem = [s for s in sem if not (s["conjunction"] and s["fn"] in told)]
    res["failed"] = [s for s in sem if s["semantic"]]
    odd = [s for s in sem if not s["semantic"]]
    if res["errors"] == 0 and not errs:
        res["status"] = "proved" if res["verified"] > 0 else "undecided"
    elif odd and not res["failed"]:
        res["why"] = "verifier error: " + "; ".join(s["message"] for s in odd)[:800]
    elif res["failed"]:
        res["status"] = "failed"
        if lim:
            res["why"] = "also resource limits hit"
    else:
        res["why"] = "resource limit: " + "; ".join(x.get("message", "") for x in lim)[:400]
    res["stderr"] = "\n".join(x.get("rendered") or x.get("message", "") for x in errs)[-6000:]
    return res


def probe_unit(name, unit, prop):
    """vacuity: assert(false) at the head of every extracted function must fail everywhere"""
    r = run_unit(name, unit, prop, probe=True)
    fs = [f for f in r["functions"] if f.get("body", True)]
    hit = {s["fn"] for s in r["failed"] if "assertion" in s["message"]}
    vac = [f["fn"] for f in fs if f["fn"] not in hit]
    return {"unit": name, "functions": len(fs), "reached": len(fs) - len(vac), "vacuous": vac, "why": r["why"]}


# ------------------------------------------------------------------ part B
FVH = os.path.join(B, "target", "release", "fvh")


def build_b(prop):
    global FVH
    # the harness crate of the property and the parts of /repo it needs beside the flowsdk crate
    crate, bin_, more = {"C27": ("harness_pb", "fvh_pb", ["duality"]), "C31": ("harness_ffi", "fvh_ffi", ["ffi"]),
                         "C32": ("harness_ffi", "fvh_ffi", ["ffi"]), "C33": ("harness_ffi", "fvh_ffi", ["ffi"])}.get(prop, ("harness", "fvh", []))
    FVH = os.path.join(B, "target", "release", bin_)
    with Lock("b"):
        ov = os.path.join(B, "overlay", "flowsdk")
        rc, o, e = sh([sys.executable, "tools/overlay.py", REPO, ov] + more, 60)
        if rc != 0:
            return False, "overlay: " + e
        en = dict(ENV, CARGO_TARGET_DIR=os.path.join(B, "target"))
        rc, o, e = sh(["cargo", "build", "--offline", "--release", "-q", "--manifest-path", crate + "/Cargo.toml"], 700, env=en)
    return rc == 0, e[-3000:]


def run_b(prop, seed, ms, known, tag):
    d = os.path.join(B, "b")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "%s.%s.json" % (prop, tag))
    rp = os.path.join(d, "%s.%s.replay.json" % (prop, tag))
    for p in (out, rp):
        if os.path.exists(p):
            os.remove(p)
    cmd = [FVH, prop, "--seed", str(seed), "--budget-ms", str(ms), "--out", out, "--replay", rp]
    if TIER == "thorough":
        cmd.append("--thorough")
    for k in known:
        cmd += ["--known", k]
    rc, o, e = sh(cmd, left(850, ms / 1000 * 2 + 240 if TIER == "thorough" else ms / 1000 * 2 + 90))
    st = {}
    if os.path.exists(out):
        try:
            st = json.load(open(out))
        except Exception:
            st = {}
    r = {"rc": rc, "stats": st, "line": "", "known": [], "replay": None, "cmd": " ".join(cmd)}
    for l in o.split("\n"):
        if l.startswith("B-FAIL"):
            r["line"] = l
        if l.startswith("B-KNOWN key="):
            r["known"].append(l.split()[1][4:])
    if rc == 1 and r["line"]:
        r["replay"] = json.load(open(rp)) if os.path.exists(rp) else {"failure": r["line"]}
    elif rc < 0 or rc >= 128 and rc != 124:
        # the process was killed by the code under test (abort, stack overflow)
        r["line"] = "B-FAIL the process died with status %d" % rc
        r["replay"] = {"property": prop, "failure": r["line"], "command": r["cmd"], "stderr": e[-2000:]}
        r["rc"] = 1
    elif rc != 0:
        r["why"] = "harness ended with %d: %s" % (rc, (e or o)[-400:])
    return r


# ------------------------------------------------------------------ main
def main():
    prop = sys.argv[1]
    conf = json.load(open(os.path.join(V, "contracts", "units.json")))
    pc = conf["properties"][prop]
    units = {u: conf["units"][u] for u in pc.get("units", [])}
    kf = json.load(open(os.path.join(V, "known_findings.json")))
    known = {k["key"]: k for k in kf["findings"] if k["property"] == prop}
    if "--replay" in sys.argv:
        r = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        ok, e = build_b(prop)
        b = r.get("bounded") or r
        if ok and b.get("suite"):
            rc, o, e = sh([FVH, prop, "--seed", str(b["seed"]), "--only", "%s:%s" % (b["suite"], b["case"])] + (["--thorough"] if b.get("thorough") else []), 300)
            print(o, e)
            sys.exit(rc)
        print(json.dumps(r, indent=1))
        sys.exit(0)
    quick_ms = pc.get("quick_ms", 12000)
    ms = quick_ms if TIER == "quick" else pc.get("thorough_ms", 240000)

    with cf.ThreadPoolExecutor(8) as ex:
        fb = ex.submit(build_b, prop)
        okx, ex_err = build_vx() if units else (True, "")
        fa = {u: ex.submit(run_unit, u, units[u], prop) for u in units} if okx else {}
        fp = {u: ex.submit(probe_unit, u, units[u], prop) for u in units} if okx and TIER == "thorough" else {}
        A = {u: f.result() for u, f in fa.items()}
        P = {u: f.result() for u, f in fp.items()}
        okb, berr = fb.result()
    bres = run_b(prop, SEED, ms, known, "main") if okb and pc.get("bounded", True) else None

    # --- verdict of A
    def mine(f):
        # a property about safety alone: a wrong answer is for the properties that say what the answer is
        if pc.get("only") == "safety" and "postcondition" in f["message"]:
            return False
        return not f["props"] or prop in f["props"]
    failed = [f for r in A.values() for f in r["failed"] if mine(f)]
    foreign = [f for r in A.values() for f in r["failed"] if not mine(f)]
    undec = []
    if not okx:
        undec.append("the extractor did not build: " + ex_err[-400:])
    for r in A.values():
        if r["status"] == "undecided":
            undec.append("%s: %s" % (r["unit"], r["why"]))
        elif r["status"] == "failed" and not [f for f in r["failed"] if mine(f)]:
            undec.append("%s: obligations of other properties fail: %s" % (r["unit"], ", ".join(sorted({f["fn"] for f in r["failed"]}))))
    vac = [(p["unit"], v) for p in P.values() for v in p["vacuous"]]

    viol, replay, tail = False, None, ""
    if bres and bres["rc"] == 1:
        viol, replay = True, {"kind": "failing input", "bounded": bres["replay"], "failed_obligations": failed}
    elif failed:
        # look harder for a failing input before reporting the bare obligation
        if okb and pc.get("bounded", True):
            for k in range(3):
                if left(790, 60) < 30:
                    break
                b2 = run_b(prop, SEED * 1000 + 7 + k, 20000, known, "search%d" % k)
                if b2["rc"] == 1:
                    viol, replay = True, {"kind": "failing input", "bounded": b2["replay"], "failed_obligations": failed}
                    bres = b2
                    break
        if not viol:
            viol, tail = True, " no-failing-input-found"
            replay = {"kind": "failed obligation", "failed_obligations": failed,
                      "verifier_output": {u: r.get("stderr", "") for u, r in A.items() if r["failed"]},
                      "checker": {u: r.get("cmd", "") for u, r in A.items() if r["failed"]}}
    # --- report
    obl = sum(r["verified"] + r["errors"] for r in A.values())
    dis = sum(r["verified"] for r in A.values())
    fns = [f for r in A.values() for f in r["functions"]]
    under = sorted({"%s (%s)" % (f["fn"], f["file"]) for f in fns if f["contract"]})
    trusted = sorted({t for r in A.values() for t in r["trusted"]})
    st = (bres or {}).get("stats", {})
    level = pc["level"]
    if level == "proof" and (undec or failed or not okx):
        level_now = "other"
    else:
        level_now = level
    cov = {
        "obligations": obl, "discharged": dis,
        "checker_cmd": "; ".join(r.get("cmd", "") for r in A.values()),
        "trusted_base": ["Verus 0.2026.09.13 + Z3 (solver)", "vx extractor (/verif/vx): syntactic rewrites listed under rewrites"] + trusted + pc.get("trusted", []),
        "backend": "Verus -> Z3",
        "functions_under_contract": under,
        "functions_extracted": len(fns),
        "solver_ms": sum(r["time_ms"] for r in A.values()),
        "units": {u: {"status": r["status"], "verified": r["verified"], "errors": r["errors"], "wall_s": r.get("wall_s"), "why": r["why"][:600]} for u, r in A.items()},
        "rewrites": {u: r["rewrites"] for u, r in A.items()},
        "vacuity_probe": P or "run by the thorough tier",
        "undecided": undec,
        "evaluations": st.get("evaluations", 0), "distinct_nontrivial": st.get("distinct_nontrivial", 0),
        "rule": st.get("rule", ""), "samples": st.get("samples", []),
        "bounded_part": {"label": "bounded, not counted as proved", "per_suite": st.get("per_suite", ""), "budget_ms": ms, "built": okb, "note": (bres or {}).get("why", "") or ("" if okb else berr[-600:])},
        "explanation": pc.get("explanation", ""),
    }
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": level_now, "coverage": cov,
          "assumptions": pc.get("assumptions", []) + ["machine arithmetic is checked, not idealised: Verus reports overflow on every fixed-width operation"],
          "wall_s": round(time.time() - T0, 2), "violations": 1 if viol else 0}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)

    for u, r in A.items():
        print("A %s: %s verified=%d errors=%d smt=%dms %s" % (u, r["status"], r["verified"], r["errors"], r["time_ms"], r["why"][:300].replace("\n", " ")))
    if bres:
        print("B: rc=%s evaluations=%s %s" % (bres["rc"], st.get("evaluations"), bres["line"] or bres.get("why", "")))
    elif not okb:
        print("B: not built: " + berr[-500:].replace("\n", " "))
    for u, v in vac:
        print("VACUOUS: %s %s" % (u, v))
    for x in undec:
        print("UNDECIDED-PROOF: " + x.replace("\n", " ")[:600])
    hit = set((bres or {}).get("known", []))
    for k, e in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s%s" % (prop, e["what"], "" if k in hit or not bres else " (not reached by this run)"))
    if viol:
        rd = os.path.join(V, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, prop + ".json")
        replay["property"] = prop
        replay["rerun"] = "python3 /verif/check.py %s --replay %s" % (prop, rp)
        json.dump(replay, open(rp, "w"), indent=1)
        for f in failed[:6]:
            print("FAILED-OBLIGATION %s (%s:%s): %s [%s]" % (f["fn"], f["file"], f["line"], f["message"], f["clause"][:200]))
        if bres and bres["line"]:
            print(bres["line"][:600])
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, tail))
        sys.exit(1)
    print("HELD property=%s obligations=%d discharged=%d evaluations=%s wall=%.1fs" % (prop, obl, dis, st.get("evaluations", 0), time.time() - T0))
    sys.exit(0)


if __name__ == "__main__":
    if len(sys.argv) < 2:
        print(__doc__)
        sys.exit(2)
    main()
