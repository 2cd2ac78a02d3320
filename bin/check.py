#!/usr/bin/env python3
"""Decide one property on /repo's current tree.

usage: check.py ID [--replay FILE]

Layers (see DESIGN.md):
  verus  functions extracted from /repo on this run, with their contracts (vx + verus)
  kani   contract harnesses on the compiled real crate (cargo kani)
  rac    the same contracts evaluated on the running code: searches a concrete failing input
         and stands in (bounded) for obligations the verifiers could not process
Exit 0: held; exit 1 and a VIOLATION line: broken; exit 2: the check could not run.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "bin"))
from config import PROPS  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
T0 = time.time()
BUDGET = 840 if TIER == "quick" else 6 * 3600


def left():
    return max(5.0, BUDGET - (time.time() - T0))


def run(cmd, timeout, cwd=None, env=None):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0")
    e.pop("RUSTFLAGS", None)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True,
                         stdin=subprocess.DEVNULL)
    try:
        out, err = p.communicate(timeout=min(timeout, left()))
        return p.returncode, out.decode(errors="replace"), err.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, err = p.communicate()
        return -9, out.decode(errors="replace"), err.decode(errors="replace") + "\nTIMEOUT"


# ------------------------------------------------------------------ builds
def build_crate(name):
    d = os.path.join(VERIF, name)
    rc, out, err = run(["cargo", "build", "--offline", "--locked"], 600, cwd=d,
                       env={"CARGO_TARGET_DIR": os.path.join(BUILD, name), "VERIF_REPO": REPO})
    exe = os.path.join(BUILD, name, "debug", name)
    return (exe if rc == 0 else None), err[-4000:]


# ------------------------------------------------------------------ verus
SEMANTIC = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
            "possible arithmetic", "possible division", "decreases not satisfied", "loop invariant", "not satisfied at end of loop body",
            "not satisfied before loop", "unwrap", "split assertion failure", "recommendation not met", "possible bit shift")
TOOL = ("Resource limit", "rlimit", "timed out", "could not finish", "solver")


def expand_derive(out):
    """what /repo/ipmb-derive makes of the enumerations in expand/src/lib.rs; the names it refers
    to are not there, so the compiler complains after printing the expansion"""
    env = dict(os.environ, RUSTC_BOOTSTRAP="1", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(BUILD, "expand"))
    rc, o, err = run(["cargo", "rustc", "--offline", "--lib", "-q", "--", "-Zunpretty=expanded"], 200, cwd=os.path.join(VERIF, "expand"), env=env)
    if "MessageBox for Choice" not in o or "MessageBox for Single" not in o:
        return None, err.strip()[-400:]
    p = os.path.join(out, "derive_expanded.rs")
    open(p, "w").write(o)
    return p, ""


def verus(spec, vx):
    """one unit: extract, verify, and check that its contracts are not vacuous;
    `fns` names the functions of the unit this property depends on (all when absent)"""
    unit, fns = (spec, None) if isinstance(spec, str) else (spec["unit"], spec["fns"])
    r = {"unit": unit, "fns": fns, "status": "undecided", "why": "", "failed": [], "functions": [], "verified": 0, "smt_ms": 0, "assumed": [],
         "reach": {}, "cmd": "", "notes": [], "assumed_bodies": {}}
    if not vx:
        r["why"] = "the extractor did not build"
        return r
    src = os.path.join(VERIF, "units", unit + ".rs")
    out = os.path.join(BUILD, "gen")
    os.makedirs(out, exist_ok=True)
    gen, mp = os.path.join(out, unit + ".rs"), os.path.join(out, unit + ".json")
    derive = []
    if "file=@derive" in open(src).read():
        path, why = expand_derive(out)
        if not path:
            r["why"] = "expansion of the derive macro: " + why
            return r
        derive = ["--derive", path]
    opaque = []
    while True:
        rc, _, err = run([vx, src, "--repo", REPO, "--out", gen, "--map", mp] + derive + [x for o in opaque for x in ("--opaque", o)], 60)
        if rc != 0:
            r["why"] = "extraction: " + err.strip()[-500:]
            return r
        m = json.load(open(mp))
        r["functions"] = m
        text = open(gen).read()
        r["assumed"] = scan_assumptions(text)
        if fns:
            missing = [f for f in fns if f not in {x["item"] for x in m}]
            if missing:
                r["why"] = f"config names functions the unit does not extract: {missing}"
                return r
        cmd = ["verus", gen, "-V", "spinoff-all", "--output-json", "--time", "--multiple-errors", "4", "--triggers-mode", "silent", "--rlimit", "40" if TIER == "quick" else "200"]
        r["cmd"] = f"vx units/{unit}.rs && verus build/gen/{unit}.rs --rlimit {cmd[-1]}"
        # each obligation by itself; if the solver breaks down over one of them, all in sequence
        for c, secs in ((cmd, 200), ([x for x in cmd if x not in ("-V", "spinoff-all")], 150)):
            rc, o, err = run(["prlimit", "--as=12000000000"] + c, secs, cwd=out)
            if rc in (0, 1) and "solver reader thread failure" not in err:
                break
        try:
            j = json.loads(o[o.index("{"):])
        except ValueError:
            r["why"] = "verus gave no result: " + err[-600:]
            return r
        v = j.get("verification-results", {})
        r["verified"] = v.get("verified", 0)
        r["errors"] = v.get("errors", 0)
        try:
            r["smt_ms"] = j["times-ms"]["smt"]["smt-run"]
        except KeyError:
            pass
        if v.get("encountered-vir-error") or (not v.get("success") and v.get("errors", 0) == 0):
            # functions the verifier does not accept keep their contract as an assumption; the others are still decided
            bad = {}
            for e in parse_errors(err, m):
                if e["item"] and e["item"] not in opaque:
                    bad.setdefault(e["item"], e["msg"])
            if bad and len(opaque) < 12:
                opaque += sorted(bad)
                r["assumed_bodies"].update(bad)
                continue
            r["why"] = "not accepted by the verifier: " + "\n".join(l for l in err.splitlines() if l.startswith("error"))[:600]
            return r
        break
    r["assumed_bodies"].update({x["item"]: x["opaque"] for x in m if x.get("opaque") and x["item"] not in r["assumed_bodies"]})
    # contracts that are only assumed on this tree: nothing that failed may be blamed on them, and nothing is proved through them
    lost = "; ".join(f"{k}: {w}" for k, w in sorted(r["assumed_bodies"].items()))[:700]
    if v.get("errors", 0) > 0:
        errs = parse_errors(err, m)
        if fns:
            other = [e for e in errs if e["item"] and e["item"] not in fns]
            r["notes"] = [f'{e["item"]}: {e["msg"]}' for e in other]
            errs = [e for e in errs if e not in other]
            if not errs and other:
                r["status"] = "undecided" if lost else "proved"
                r["why"] = "outside the verifier's reach: " + lost if lost else ""
                return r
        sem = [e for e in errs if not any(t.lower() in e["msg"].lower() for t in TOOL)]
        if sem:
            r["status"] = "failed"
            r["failed"] = sem
        else:
            r["why"] = "solver gave up: " + "; ".join(e["msg"] for e in errs)[:400]
        r["output"] = err[-6000:]
        return r
    if lost:
        r["why"] = "outside the verifier's reach: " + lost
        return r
    if r["verified"] == 0:
        r["why"] = "no obligations were generated"
        return r
    # every contracted function must be reachable under its precondition
    g2, m2 = os.path.join(out, unit + "_reach.rs"), os.path.join(out, unit + "_reach.json")
    rc, _, err = run([vx, src, "--repo", REPO, "--out", g2, "--map", m2, "--reach"] + derive, 60)
    if rc == 0:
        rc, o, err = run(["verus", g2, "-V", "spinoff-all", "--verify-root", "--verify-function", "*__reach", "--output-json", "--multiple-errors", "0", "--triggers-mode", "silent", "--rlimit", "3"], 300, cwd=out)
        errs = parse_errors(err, json.load(open(m2)))
        bad = {e["item"] for e in errs}
        want = {x["item"] for x in json.load(open(m2)) if x["item"].endswith("__reach")}
        never = set(PROPS_NEVER.get(unit, []))
        vac = sorted(x for x in want - bad if x.replace("__reach", "") not in never)
        r["reach"] = {"checked": len(want), "vacuous": vac}
        if vac:
            r["why"] = "vacuous contract: " + ", ".join(vac)
            return r
    r["status"] = "proved"
    return r


PROPS_NEVER = PROPS.get("_never_returns", {})


def scan_assumptions(text):
    a = []
    for k in ("external_body", "assume_specification", "admit()", "assume(", "axiom fn", "external_type_specification"):
        for m in re.finditer(re.escape(k), text):
            tail = text[m.end():m.end() + 260]
            f = re.search(r"(fn|struct|enum|type)\s+(\w+)", tail)
            a.append(f"{k.rstrip('(')} {f.group(2) if f else ''}".strip())
    return sorted(set(a))


def parse_errors(err, m):
    out = []
    cur = None
    lines = err.splitlines()
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith("error"):
            cur = {"msg": re.sub(r"^error(\[\w+\])?: ", "", l), "line": 0, "item": "", "text": "", "block": [l]}
            if "aborting due to" not in l:
                out.append(cur)
        elif cur is not None and (l.startswith("warning") or l.startswith("note: automatically")):
            cur = None
        elif cur is not None:
            cur["block"].append(l)
            g = re.search(r"-->\s+\S+?:(\d+):(\d+)", l)
            if g and not cur["line"]:
                cur["line"] = int(g.group(1))
            g = re.match(r"\s*(\d+)\s*[|/]", l)
            if g:
                cur.setdefault("lines", []).append(int(g.group(1)))
            if "^" in l and not cur["text"] and i > 0:
                cur["text"] = re.sub(r"^\s*\d+\s*\|\s*[|/\\]*\s*", "", lines[i - 1]).strip()
        i += 1
    for e in out:
        for ln in [e["line"]] + e.get("lines", []):
            for x in m:
                if x["gen_start"] <= ln <= x["gen_end"]:
                    e["item"] = x["item"]
                    e["src"] = f'{x.get("file", "")}:{x.get("line", "")}'
                    break
            if e["item"]:
                break
        e["block"] = "\n".join(e["block"])[:1500]
    return out


# ------------------------------------------------------------------ kani
def kani(group, harnesses):
    """harnesses: list of {name, bound or None}"""
    r = {"group": group, "status": "undecided", "why": "", "harnesses": {}, "cmd": "", "failed": [], "time_s": 0}
    crate = os.path.join(REPO, {"ipmb": "ipmb", "ffi": "ipmb-ffi"}[group])
    tgt = os.path.join(BUILD, "kani-" + group)
    cmd = ["cargo", "kani", "-Z", "stubbing", "-Z", "c-ffi", "--target-dir", tgt, "--output-format", "regular"]
    for h in harnesses:
        cmd += ["--harness", h["name"], ]
    cmd += ["--exact"] if all("::" in h["name"] for h in harnesses) else []
    cmd += ["-j", str(min(6, len(harnesses))), "--output-format", "terse"] if False else []
    t = time.time()
    r["cmd"] = " ".join(cmd)
    rc, out, err = run(cmd, 700, cwd=crate, env={"IPMB_VERIF_DIR": VERIF})
    r["time_s"] = round(time.time() - t, 1)
    text = out + err
    parts = re.split(r"Checking harness (\S+?)\.\.\.", text)
    got = {}
    for i in range(1, len(parts) - 1, 2):
        got[parts[i]] = parts[i + 1]
    if not got:
        r["why"] = "kani did not run: " + text[-800:]
        return r
    und = []
    for h in harnesses:
        key = next((k for k in got if k == h["name"] or k.endswith("::" + h["name"])), None)
        body = got.get(key, "")
        hs = {"bound": h.get("bound"), "property": h.get("what", "")}
        g = re.search(r"\*\* (\d+) of (\d+) failed(.*)", body)
        if g:
            hs["failed"], hs["checks"] = int(g.group(1)), int(g.group(2))
        g2 = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", body)
        if g2:
            hs["covers"] = [int(g2.group(1)), int(g2.group(2))]
        tm = re.search(r"Verification Time: ([\d.]+)s", body)
        hs["time_s"] = float(tm.group(1)) if tm else None
        fails = re.findall(r"Failed Checks: (.*)\n\s*File: \"([^\"]*)\", line (\d+), in (\S+)", body)
        plain = re.findall(r"Failed Checks: (.*)", body)
        if "VERIFICATION:- SUCCESSFUL" in body:
            hs["status"] = "proved"
            if g2 and int(g2.group(1)) < int(g2.group(2)):
                hs["status"] = "undecided"
                hs["why"] = "vacuous: a cover is unreachable"
        elif "VERIFICATION:- FAILED" in body and hs.get("failed"):
            sem = [f for f in (fails or [(p, "", "", "") for p in plain]) if not re.search(r"unwinding assertion|is not currently supported|unsupported|reachability|Function with missing definition|recursion unwinding", f[0])]
            tool = [p for p in plain if re.search(r"unwinding assertion|is not currently supported|unsupported|missing definition|recursion unwinding", p)]
            if sem and not tool:
                hs["status"] = "failed"
                hs["fails"] = [f"{f[0]} ({os.path.basename(f[1])}:{f[2]} in {f[3]})" for f in sem]
                r["failed"].append({"item": h["name"], "msg": "; ".join(hs["fails"])[:600], "src": "", "text": h.get("what", "")})
            else:
                hs["status"] = "undecided"
                hs["why"] = "; ".join(plain)[:300]
        else:
            hs["status"] = "undecided"
            hs["why"] = "no verdict: " + body[-200:]
        if hs["status"] == "undecided":
            und.append(f'{h["name"]}: {hs.get("why", "")}')
        r["harnesses"][h["name"]] = hs
    if r["failed"]:
        r["status"] = "failed"
        r["output"] = text[-6000:]
    elif und:
        r["why"] = "; ".join(und)[:800]
    else:
        r["status"] = "proved"
    return r


# ------------------------------------------------------------------ rac
def rac(prop, exe, only=None, tag=""):
    out = os.path.join(BUILD, f"rac-{prop}{tag}.json")
    for f in (out, out + ".current"):
        if os.path.exists(f):
            os.remove(f)
    cmd = [exe, prop, "--out", out, "--tier", TIER, "--seed", str(SEED)]
    if only:
        cmd += ["--only", only]
    rc, o, err = run(cmd, 500 if TIER == "quick" else 3 * 3600, env={"RAC_VERIF": VERIF})
    j = None
    try:
        j = json.load(open(out))
    except (OSError, ValueError):
        pass
    cur = ""
    try:
        cur = open(out + ".current").read()
    except OSError:
        pass
    if j is None:
        if rc < 0 and rc != -9 and cur:
            # the process died while running this case
            j = {"evaluations": 1, "distinct": 0, "samples": [], "rules": [], "counters": {}, "done": False,
                 "violations": [{"case": cur, "detail": f"the process was ended by signal {-rc}: " + err[-300:]}]}
        else:
            return None, f"rac ended with {rc}: {err[-800:]}"
    return j, ""


def replay_file(prop, data):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(data, sort_keys=True, default=str).encode()).hexdigest()[:10]
    p = os.path.join(d, f"{prop}-{h}.json")
    json.dump(data, open(p, "w"), indent=1, default=str)
    return p


def known_findings(prop):
    """open findings: `open: property=ID case=<case key> <what fails>`"""
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            g = re.match(r"open: property=(\S+) case=(\S+) (.*)", l.strip())
            if g and g.group(1) == prop:
                r.append((g.group(2), g.group(3)))
    return r


def main():
    prop = sys.argv[1]
    cfg = PROPS[prop]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if "--replay" in sys.argv:
        d = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        if d.get("case"):
            exe, e = build_crate("rac")
            j, e = rac(prop, exe, d["case"], "-replay")
            print(json.dumps(j["violations"] if j else e, indent=1))
            return 1 if j and j["violations"] else 0
        print(json.dumps(d, indent=1))
        return 0

    ex = cf.ThreadPoolExecutor(8)
    f_rac = ex.submit(build_crate, "rac")
    f_vx = ex.submit(build_crate, "vx") if cfg.get("verus") else None
    f_kani = [ex.submit(kani, g, hs) for g, hs in cfg.get("kani", {}).items() if hs]
    f_ver = []
    if f_vx:
        vx, vxerr = f_vx.result()
        f_ver = [ex.submit(verus, u, vx) for u in cfg["verus"]]
    exe, e = f_rac.result()
    if not exe:
        print(f"{prop}: the contract runner does not build against this tree\n{e}")
        return 2
    j, e = rac(prop, exe)
    if j is None:
        # one more try: a machine under load
        j, e = rac(prop, exe)
    if j is None:
        print(f"{prop}: {e}")
        return 2
    # a failing case has to fail again
    known = known_findings(prop)
    viol, kf = [], []
    for v in j["violations"]:
        hit = next((k for k in known if k[0] == v["case"]), None)
        if hit:
            kf.append(hit)
            continue
        again = 0
        for _ in range(2):
            j2, _e = rac(prop, exe, v["case"], "-confirm")
            if j2 and j2["violations"]:
                again += 1
                break
        v["confirmed"] = again > 0
        if again == 0:
            # try the whole run once more: the failure may need its context
            j3, _e = rac(prop, exe, None, "-again")
            if j3 and any(x["case"] == v["case"] for x in j3["violations"]):
                v["confirmed"] = True
        if v["confirmed"]:
            viol.append(v)
        else:
            print(f"{prop}: {v['case']} failed once and not again: {v['detail'][:300]}")
    vres = [f.result() for f in f_ver]
    kres = [f.result() for f in f_kani]
    return conclude(prop, cfg, j, viol, kf, known, vres, kres)


def conclude(prop, cfg, j, viol, kf, known, vres, kres):
    obligations = sum(v["verified"] + v.get("errors", 0) for v in vres)
    discharged = sum(v["verified"] for v in vres if v["status"] == "proved")
    discharged += sum(v["verified"] for v in vres if v["status"] == "failed")
    kp = kb = 0
    for k in kres:
        for n, h in k["harnesses"].items():
            if not h.get("bound"):
                obligations += h.get("checks", 1)
                if h["status"] == "proved":
                    discharged += h.get("checks", 1)
                    kp += 1
            elif h["status"] == "proved":
                kb += 1
    failed = [f for v in vres if v["status"] == "failed" for f in v["failed"]] + [f for k in kres for f in k["failed"]]
    undecided = [f'{v["unit"]}: {v["why"]}' for v in vres if v["status"] == "undecided"] + [f'{k["group"]}: {k["why"]}' for k in kres if k["status"] == "undecided"]
    trusted = sorted({f'{v["unit"]}: {a}' for v in vres for a in v["assumed"]}) + cfg.get("trusted", [])
    level = "proof" if not undecided and (vres or kres) else "exploration"
    cov = {
        "obligations": obligations,
        "discharged": discharged,
        "checker_cmd": "; ".join([v["cmd"] for v in vres] + [k["cmd"] for k in kres]) or "none",
        "trusted_base": trusted,
        "evaluations": j["evaluations"],
        "distinct_nontrivial": j["distinct"],
        "rule": "; ".join(j["rules"]),
        "samples": j["samples"][:12],
        "functions_under_contract": [
            {"function": x["item"], "source": f'{x["file"]}:{x["line"]}', "unit": v["unit"], "back_end": "verus/z3", "status": "assumed on this tree" if x.get("opaque") else v["status"],
             "dropped_by_extraction": x["dropped"], "helpers_inlined": x["inlined"]}
            for v in vres for x in v["functions"] if not v["fns"] or x["item"] in v["fns"]],
        "verus_units": [{"unit": v["unit"], "status": v["status"], "functions_verified": v["verified"], "solver_ms": v["smt_ms"],
                         "reachability": v["reach"], "why": v["why"][:400]} for v in vres],
        "kani_harnesses": {n: dict(h, back_end="kani/cbmc") for k in kres for n, h in k["harnesses"].items()},
        "bounded_stand_ins": [f"{n}: {h['bound']}" for k in kres for n, h in k["harnesses"].items() if h.get("bound")] + cfg.get("bounded", []),
        "undecided": undecided,
        "counters": j["counters"],
    }
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "assumptions": cfg.get("assumptions", []),
          "wall_s": round(time.time() - T0, 1), "violations": len(viol) + (1 if failed and not viol else 0)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k in known:
        if any(x[0] == k[0] for x in kf):
            print(f"KNOWN-FINDING: property={prop} {k[1]}")
        else:
            print(f"{prop}: the known finding {k[0]} did not show on this run")
    for v in vres:
        for n in v["notes"]:
            print(f'{prop}: note: an obligation this property does not depend on failed in {v["unit"]}: {n}')
        print(f'{prop}: verus {v["unit"]}: {v["status"]}, {v["verified"]} functions verified, {len(v["functions"])} extracted {v["why"][:600]}')
    for k in kres:
        print(f'{prop}: kani {k["group"]}: {k["status"]} in {k["time_s"]} s {k["why"][:600]}')
    print(f'{prop}: {j["evaluations"]} contract evaluations on the running code, {j["distinct"]} distinct and non-trivial; {obligations} obligations, {discharged} discharged; {round(time.time() - T0, 1)} s')
    if viol:
        v = viol[0]
        p = replay_file(prop, {"property": prop, "case": v["case"], "detail": v["detail"], "seed": SEED, "tier": TIER, "failed_obligations": failed,
                               "replay": f"python3 bin/check.py {prop} --replay <this file>"})
        print(f"{prop}: {v['case']}: {v['detail'][:800]}")
        for f in failed:
            print(f'{prop}: obligation failed: {f["item"]} {f.get("src", "")}: {f["msg"]} `{f["text"]}`')
        print(f"VIOLATION property={prop} replay={p}")
        return 1
    if failed:
        p = replay_file(prop, {"property": prop, "failed_obligations": failed,
                               "verifier_output": [x.get("output", "") for x in vres + kres if x["status"] == "failed"]})
        for f in failed:
            print(f'{prop}: obligation failed: {f["item"]} {f.get("src", "")}: {f["msg"]} `{f["text"]}`')
        print(f"VIOLATION property={prop} replay={p} no-failing-input-found")
        return 1
    if undecided:
        print(f"{prop}: undecided by the verifier on this tree, held on everything explored (bounded)")
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
