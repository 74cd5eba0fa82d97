#!/usr/bin/env python3
"""check.py ID: decides property ID on /repo's current working tree.

1. extract the functions under contract from /repo/src into the Verus templates (tools/vx.py) and let Verus
   discharge every obligation;
2. build the crate with the hooks on and execute the same contracts as oracles (native/), to validate what the
   proofs assume about dependencies, to turn a failed obligation into a concrete failing input, and as the
   (bounded) stand-in for functions that do not fit the verifier any more.
Exit 0 held, 1 violation, 2 no answer.
"""
import sys, os, json, subprocess, time, re, glob, threading, fcntl, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import vx
from config import PROPS, HOOKS, TRUST
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(ROOT, ".work")
TIER = os.environ.get("VERIF_TIER", "quick")
try: SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError: SEED = 1
T0 = time.time()

# ------------------------------------------------------------------ verus
SAFETY = ("possible arithmetic underflow/overflow", "possible division by zero", "precondition not satisfied", "possible bit shift underflow/overflow",
          "decreases not satisfied", "unreachable", "index out of bounds", "constructed value may fail to meet its declared type invariant", "loop must have a decreases")
UNDECIDED = ("rlimit", "Resource limit", "timed out", "solver", "could not prove termination")

def proof_lines(text):
    """lines that belong to proof functions"""
    out, cur = set(), False
    for n, l in enumerate(text.split("\n"), 1):
        m = re.match(r"\s*(?:#\[[^\]]*\]\s*)?(?:/\*contract\*/\s*)?(?:pub\s+)?(?:broadcast\s+)?(?:open\s+|closed\s+|uninterp\s+)?(proof\s+|spec\s+|exec\s+)?fn\s+(\w+)", l)
        if m: cur = (m.group(1) or "").startswith("proof")
        if cur: out.add(n)
    return out

def fn_ranges(text):
    """line -> enclosing fn name, for the text outside extracted functions"""
    out, cur = [], None
    for l in text.split("\n"):
        m = re.match(r"\s*(?:pub\s+)?(?:broadcast\s+)?(?:open\s+|closed\s+|uninterp\s+)?(?:proof\s+|spec\s+|exec\s+)?fn\s+(\w+)", l)
        if m: cur = m.group(1)
        out.append(cur)
    return out

class VerusRun:
    def __init__(s, template): s.template = template; s.res = None

    def run(s):
        try: s.res = s.go()
        except vx.Misfit as m: s.res = {"template": s.template, "status": "misfit", "reason": str(m), "functions": [], "failed": [], "skipped": {}, "times": {}}
        except Exception as e:
            import traceback
            s.res = {"template": s.template, "status": "misfit", "reason": "extraction error: %r %s" % (e, traceback.format_exc()[-400:]), "functions": [], "failed": [], "skipped": {}, "times": {}}
        return s.res

    def go(s):
        bl = json.load(open(os.path.join(ROOT, "verus", "baseline.json")))
        skip, rl, budget = {}, 60, time.time() + 420
        for attempt in range(12):
            text, rep = vx.build(REPO, os.path.join(ROOT, "verus", s.template + ".rs"), bl, skip=skip, tolerant=True)
            skip = rep["skipped"]
            f = os.path.join(WORK, "verus_%s.rs" % s.template)
            open(f, "w").write(text)
            cmd = ["verus", f, "--rlimit", str(rl), "--output-json", "--time-expanded", "--multiple-errors", "3", "--", "--error-format=json"]
            left = budget - time.time()
            if left < 5: return s.result("undecided", "time", text, rep, {}, [], cmd)
            try: p = subprocess.run(cmd, capture_output=True, text=True, timeout=left, cwd=WORK)
            except subprocess.TimeoutExpired: return s.result("undecided", "verus timed out", text, rep, {}, [], cmd)
            try: j = json.loads(p.stdout)
            except ValueError: j = {}
            diags = []
            for l in p.stderr.split("\n"):
                if l.startswith("{"):
                    try: d = json.loads(l)
                    except ValueError: continue
                    if d.get("level") == "error": diags.append(d)
            vr = j.get("verification-results", {})
            if vr.get("success") and not diags and p.returncode == 0: return s.result("verified", "", text, rep, j, [], cmd)
            enc = vr.get("encountered-vir-error") or not any(m.get("function-breakdown") for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []))
            if enc:
                # not accepted by the front end: leave out the functions in which the errors lie
                bad = {}
                for d in diags:
                    for sp in d["spans"]:
                        if not sp.get("is_primary"): continue
                        for a, b, path in rep["marks"]:
                            if a <= sp["line_start"] < b and path not in skip: bad.setdefault(path, "not accepted by the verifier: " + d["message"])
                if not bad: return s.result("misfit", "; ".join(d["message"] for d in diags)[:600] or "verus failed: " + p.stderr[-300:], text, rep, j, diags, cmd)
                skip = dict(skip, **bad); continue
            failed = s.failures(text, rep, j, diags)
            if all(x["kind"] == "undecided" for x in failed) and rl < 200: rl = 240; continue
            return s.result("failed", "", text, rep, j, failed, cmd)
        return s.result("misfit", "too many unsupported functions", text, rep, {}, [], cmd)

    def failures(s, text, rep, j, diags):
        br = [x for m in j["times-ms"]["smt"]["smt-run-module-times"] for x in m["function-breakdown"]]
        failing = set(x["function"].split("::", 1)[-1] for x in br if not x.get("success", True))
        ranges, plines = fn_ranges(text), proof_lines(text)
        out = []
        for d in diags:
            if "aborting due to" in d["message"] or d["message"].startswith("verification results"): continue
            fns = []
            for sp in sorted(d["spans"], key=lambda x: not x.get("is_primary")):
                ln = sp["line_start"]
                if not sp["file_name"].endswith("verus_%s.rs" % s.template): continue
                path = next((p for a, b, p in rep["marks"] if a <= ln < b), None)
                nm = path or (ranges[ln - 1] if ln <= len(ranges) else None)
                if nm and nm not in fns: fns.append(nm)
            hit = [n for n in fns if any(n.split("/")[-1] == q or n.split("::")[-1] == q.split("::")[-1] for q in failing)]
            fn = (hit or fns or ["?"])[0]
            msg = d["message"]
            und = any(u in msg for u in UNDECIDED) or any(u in (sp.get("label") or "") for sp in d["spans"] for u in ("rlimit",))
            kind = "undecided" if und else "safety" if any(msg.startswith(k) for k in SAFETY) else "functional"
            # the precondition of a lemma is not a safety condition of the code
            if kind == "safety" and msg.startswith("precondition") and any("precondition" in (sp.get("label") or "") and sp["line_start"] in plines and sp["file_name"].endswith("verus_%s.rs" % s.template) for sp in d["spans"]): kind = "functional"
            at = ["%s: %s" % (sp.get("label") or "at", " ".join(x["text"].strip() for x in sp.get("text", []))[:240]) for sp in d["spans"]]
            out.append({"function": fn, "kind": kind, "message": msg, "at": at, "rendered": (d.get("rendered") or "")[:3000]})
        return out

    def result(s, status, reason, text, rep, j, failed, cmd):
        br = [x for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []) for x in m.get("function-breakdown", [])] if j else []
        trusted = []
        for m in re.finditer(r"assume_specification\s*(?:<[^>]*>)?\s*\[\s*(.*?)\s*\]", text): trusted.append("assumed specification of " + m.group(1))
        for m in re.finditer(r"#\[verifier::external_body\]\s*(?:pub )?(?:broadcast )?(?:proof )?(?:fn|struct)\s+(\w+)", text): trusted.append("external_body " + m.group(1))
        for m in re.finditer(r"\baxiom fn (\w+)", text): trusted.append("axiom " + m.group(1))
        n = len(re.findall(r"\b(?:assume|admit)\s*\(", text))
        return {"template": s.template, "status": status, "reason": reason, "functions": rep["functions"], "items": rep["items"], "skipped": rep["skipped"], "failed": failed,
                "breakdown": br, "assumes": n, "contracts": rep["contracts"], "trusted": trusted, "cmd": " ".join(cmd),
                "smt_ms": sum(x.get("time-micros", 0) for x in br) / 1000.0, "verified": j.get("verification-results", {}).get("verified", 0) if j else 0}

# ------------------------------------------------------------------ native
class Native:
    def __init__(s): s.bin = None; s.dropped = []; s.error = None
    def build(s):
        hooks = dict(HOOKS)
        env = dict(os.environ, RQRR_VERIF_HOOKS=os.path.join(WORK, "hooks"), CARGO_TARGET_DIR=os.path.join(WORK, "target"), CARGO_NET_OFFLINE="true")
        os.makedirs(env["RQRR_VERIF_HOOKS"], exist_ok=True)
        # cargo goes by mtime; forget the state of the crates under test so that what is in /repo now is compiled
        for d in glob.glob(os.path.join(WORK, "target", "release", ".fingerprint", "rqrr-*")): shutil.rmtree(d, ignore_errors=True)
        for attempt in range(10):
            for mod in sorted(set(m for m, _ in HOOKS)):
                t = "".join('include!("%s");\n' % os.path.join(ROOT, "native", "hooks", mod, h + ".rs") for (m, h) in HOOKS if m == mod and (m, h) in hooks)
                f = os.path.join(env["RQRR_VERIF_HOOKS"], mod + ".rs")
                if not os.path.exists(f) or open(f).read() != t: open(f, "w").write(t)
            env["RUSTFLAGS"] = "--cfg=rqrr_verif " + " ".join("--cfg=hook_" + h for (_, h) in hooks)
            p = subprocess.run(["cargo", "build", "--release", "--offline", "--message-format=json"], cwd=os.path.join(ROOT, "native"), env=env, capture_output=True, text=True, timeout=600)
            if p.returncode == 0:
                s.bin = os.path.join(WORK, "target", "release", "rqrr-native")
                s.dropped = sorted(h for (m, h) in HOOKS if (m, h) not in hooks)
                return True
            bad, msgs = set(), []
            for l in p.stdout.split("\n"):
                if not l.startswith("{"): continue
                d = json.loads(l)
                if d.get("reason") == "compiler-message" and d["message"]["level"] == "error":
                    msgs.append(d["message"]["message"])
                    def spans(x):
                        for sp in x.get("spans", []):
                            while sp:
                                yield sp
                                sp = (sp.get("expansion") or {}).get("span")
                        for c in x.get("children", []): yield from spans(c)
                    for sp in spans(d["message"]):
                        m = re.search(r"native/hooks/(\w+)/(\w+)\.rs$", sp["file_name"])
                        if m and (m.group(1), m.group(2)) in hooks: bad.add((m.group(1), m.group(2)))
            if not bad: s.error = "; ".join(msgs)[:800] or p.stderr[-800:]; return False
            for b in bad: del hooks[b]
        s.error = "hooks"; return False

    def run(s, prop, seed, factor, secs):
        p = subprocess.run([s.bin, "run", prop, str(seed), str(factor), str(secs)], capture_output=True, text=True, timeout=secs + 200)
        try: return json.loads(p.stdout)
        except ValueError: return {"generators": [], "failure": {"generator": "?", "seed": seed, "index": -1, "what": "the process under test ended abnormally (code %s): %s" % (p.returncode, p.stderr[-300:])}}

# ------------------------------------------------------------------ main
def relevant(fn, sel):
    if sel is None: return True
    names = sel.get("only")
    last = lambda x: x
    if names is not None: return fn in names
    return fn not in sel.get("except", ())

def main():
    if sys.argv[1] == "setup":
        os.makedirs(WORK, exist_ok=True)
        n = Native(); ok = n.build(); print("native build:", "ok" if ok else n.error); return 0 if ok else 1
    prop = sys.argv[1]; cfg = PROPS[prop]
    os.makedirs(WORK, exist_ok=True); os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    lock = open(os.path.join(WORK, "lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    runs = [VerusRun(t) for t in cfg["templates"]]
    ths = [threading.Thread(target=r.run) for r in runs]
    for t in ths: t.start()
    nat = Native(); native = None
    try:
        if nat.build(): native = nat.run(prop, SEED, 1 if TIER == "quick" else 40, 100 if TIER == "quick" else 600)
    except subprocess.TimeoutExpired: nat.error = "timeout"
    for t in ths: t.join()
    res = [r.res for r in runs]
    failed, incomplete = [], []
    for r in res:
        sel = cfg["templates"][r["template"]]
        if r["status"] in ("misfit", "undecided"): incomplete.append("%s: %s (%s)" % (r["template"], r["status"], r["reason"]))
        for k, v in r["skipped"].items():
            if relevant(k, sel): incomplete.append("%s: %s" % (k, v))
        for x in r["failed"]:
            if not relevant(x["function"], sel): continue
            if x["kind"] == "undecided": incomplete.append("%s: %s" % (x["function"], x["message"]))
            elif (sel or {}).get("soft"): incomplete.append("%s: %s" % (x["function"], x["message"]))
            elif cfg.get("safety_only") and x["kind"] != "safety": incomplete.append("%s: %s" % (x["function"], x["message"]))
            else: failed.append(x)
    fail = native["failure"] if native else None
    if failed and not fail and nat.bin:
        # look longer for an input that shows the failed obligation
        deeper = nat.run(prop, SEED + 1000, 20, 150)
        if deeper["failure"]: fail = deeper["failure"]
    if incomplete and not fail and nat.bin:
        # bounded stand-in for the functions out of reach
        deeper = nat.run(prop, SEED + 2000, 10, 120)
        native["generators"] += [dict(g, name=g["name"] + " (stand-in run)") for g in deeper["generators"]]
        if deeper["failure"]: fail = deeper["failure"]
    total = [x for r in res for x in r.get("breakdown", []) if True]
    obligations = len(total) + sum(len(r["skipped"]) for r in res)
    discharged = sum(1 for x in total if x.get("success"))
    vac = [r["template"] for r in res if r["status"] == "verified" and (r["verified"] == 0 or r["assumes"])]
    if vac: print("vacuous or assuming template:", vac); return 2
    fns = [{"function": f["path"], "file": f["file"], "rewrites": f["rewrites"], "substitutions": f["subs"], "smt_ms": round(sum(x["time-micros"] for x in r["breakdown"] if x["function"].split("::", 1)[-1] == f["path"].split("/")[-1]) / 1000.0, 1)} for r in res for f in r["functions"]]
    evals = sum(g["evaluations"] for g in native["generators"]) if native else 0
    trusted = sorted(set(t for r in res for t in r.get("trusted", []))) + TRUST + cfg.get("trust", [])
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": cfg.get("level", "proof"),
          "coverage": {"obligations": obligations, "discharged": discharged,
                       "checker_cmd": "; ".join(r.get("cmd", "") for r in res) + " (text extracted by tools/vx.py from /repo/src on this run)",
                       "trusted_base": trusted,
                       "functions_under_contract": fns, "contracts_used_and_proved_in_other_templates": sorted(set(c for r in res for c in r.get("contracts", []))), "items_extracted": sorted(set(i for r in res for i in r.get("items", []))),
                       "rewrites": {k: vx.REWRITES[k] for k in sorted(set(x for f in fns for x in f["rewrites"]))},
                       "back_end": "Verus 0.2026.09.13 / Z3 (obligations per function)", "solver_ms": round(sum(r.get("smt_ms", 0) for r in res), 1),
                       "templates": [{"template": r["template"], "status": r["status"], "reason": r["reason"], "verified": r.get("verified", 0)} for r in res],
                       "proof_incomplete": incomplete, "failed_obligations": [{k: x[k] for k in ("function", "message", "at")} for x in failed],
                       "bounded": cfg.get("bounded", []) + (["this run: " + i for i in incomplete]),
                       "native_contract_execution": {"generators": native["generators"] if native else [], "evaluations": evals, "hooks_missing": nat.dropped, "error": nat.error, "note": "validates assumed dependency contracts and searches failing inputs; not counted as proved"}},
          "assumptions": trusted, "wall_s": round(time.time() - T0, 2), "violations": 0}
    rdir = os.path.join(WORK, "replay"); os.makedirs(rdir, exist_ok=True)
    rc = 0
    for line in known(prop): print(line)
    if fail:
        rf = os.path.join(rdir, "%s.json" % prop)
        json.dump({"property": prop, "failing_input": fail, "replay_cmd": "%s replay %s %s %s %s" % (nat.bin, prop, fail["generator"], fail["seed"], fail["index"]), "failed_obligations": failed, "proof_incomplete": incomplete}, open(rf, "w"), indent=1)
        print("failing input: %s" % fail["what"][:1500])
        for x in failed: print("failed obligation: %s: %s" % (x["function"], x["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, rf)); rc = 1
    elif failed:
        rf = os.path.join(rdir, "%s.json" % prop)
        json.dump({"property": prop, "failed_obligations": failed, "verifier": "Verus", "proof_incomplete": incomplete}, open(rf, "w"), indent=1)
        for x in failed: print("failed obligation: %s: %s %s" % (x["function"], x["message"], x["at"][:2]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rf)); rc = 1
    elif not nat.bin and incomplete:
        print("no answer: neither the verifier nor the native build could take the code: %s; %s" % (incomplete, nat.error)); rc = 2
    ev["violations"] = 1 if rc == 1 else 0
    ev["wall_s"] = round(time.time() - T0, 2)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    if rc == 0:
        print("%s held: %d/%d obligations discharged, %d functions under contract, %d native evaluations, %.1f s%s" % (prop, discharged, obligations, len(fns), evals, time.time() - T0, "; proof incomplete (bounded): %s" % incomplete if incomplete else ""))
    return rc

def known(prop):
    f = os.path.join(ROOT, "known-findings.txt")
    return ["KNOWN-FINDING: " + l.strip()[len("known: "):] for l in open(f) if l.startswith("known: property=%s " % prop)] if os.path.exists(f) else []

if __name__ == "__main__": sys.exit(main())
