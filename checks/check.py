#!/usr/bin/env python3
"""Driver: decides one property by static analysis of /repo's current sources.

usage: check.py <property-id>     (VERIF_TIER=quick|thorough, VERIF_SEED from the environment)

1. compiles the property's obligation file (/verif/harness/<id>.cpp) together with the library sources of
   /repo to unoptimised LLVM IR (nothing is ever executed),
2. runs the abstract interpreter (/verif/engine) over every entry of that file,
3. runs the property's additional structural rules, if it has any (checks/rules_*.py),
4. writes evidence/<id>.json and, on a violation, evidence/<id>.replay.txt.
"""
import concurrent.futures as cf
import glob
import hashlib
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CLANG = "/usr/lib/llvm-18/bin/clang++"
LINK = "/usr/lib/llvm-18/bin/llvm-link"
sys.path.insert(0, os.path.join(VERIF, "checks"))
import config  # noqa: E402


class Broken(Exception):
    pass


def cflags(variant, tier):
    f = ["-O0", "-g", "-Xclang", "-disable-O0-optnone", "-DNDEBUG", "-include", os.path.join(VERIF, "harness", "prelude.h"),
         "-fno-exceptions", "-fno-threadsafe-statics", "-Wno-deprecated-declarations", "-Wno-everything",
         "-I", os.path.join(REPO, "inc"), "-I", os.path.join(VERIF, "harness"), "-emit-llvm", "-c"]
    if variant == "assert":  # the library's own assertions become obligations
        f = [x for x in f if x != "-DNDEBUG"]
    if variant == "pmr":
        f += ["-std=c++20", "-DNIMIDI2_PMR_SYSEX_DATA=1"]
    elif variant == "custom":
        f += ["-std=c++17", "-DNIMIDI2_CUSTOM_SYSEX_DATA_ALLOCATOR=1"]
    elif variant == "cxx20":
        f += ["-std=c++20"]
    else:
        f += ["-std=c++17"]
    if tier == "thorough":
        f += ["-DVP_THOROUGH=1"]
    return f


def compile_one(src, out, flags):
    r = subprocess.run([CLANG] + flags + [src, "-o", out], capture_output=True, text=True)
    if r.returncode != 0 and "-fno-exceptions" in flags and "exceptions disabled" in r.stderr:
        return compile_one(src, out, [("-fexceptions" if x == "-fno-exceptions" else x) for x in flags])
    if r.returncode != 0:
        raise Broken("cannot compile %s:\n%s" % (src, r.stderr[-4000:]))
    return out


def build_bitcode(pid, conf, variant, tier, work, pool):
    flags = cflags(variant, tier) + conf.get("cflags", [])
    srcs = [os.path.join(VERIF, "harness", h) for h in conf["harness"] + (["pmr_model.cpp"] if variant == "pmr" else [])]
    if conf.get("lib"):
        names = conf["lib"] if isinstance(conf["lib"], list) else None
        lib = sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))
        if names:
            # only an accelerator: unknown (new) files are always taken
            known = config.KNOWN_SRC
            lib = [s for s in lib if os.path.basename(s) in names or os.path.basename(s) not in known]
        srcs += lib
    jobs = []
    for i, s in enumerate(srcs):
        jobs.append(pool.submit(compile_one, s, os.path.join(work, "%s_%d.bc" % (variant, i)), flags))
    bcs = [j.result() for j in jobs]
    if len(bcs) == 1:
        return bcs[0]
    out = os.path.join(work, variant + ".bc")
    r = subprocess.run([LINK, "-o", out] + bcs, capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken("llvm-link: " + r.stderr[-2000:])
    return out


def run_entry(vpa, bc, entry, flags, tl, nodes):
    cmd = [vpa, bc, "--entry", entry, "--repo", REPO.rstrip("/") + "/", "--time", str(tl), "--nodes", str(nodes)] + flags
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=tl + 120)
    except subprocess.TimeoutExpired:
        return {"entry": entry, "status": "inconclusive", "reason": "timeout", "violations": [], "inconclusive": [],
                "rules": {}, "checks": 0, "functions": [], "mem_accesses": 0, "ub_sites": 0, "instructions": 0,
                "calls": 0, "joins": 0, "nodes": 0, "inputs": 0, "covers_missing": [], "unknown_calls": [], "wall": tl}
    if r.returncode != 0:
        if r.returncode < 0:
            return {"entry": entry, "status": "inconclusive", "reason": "analyser ended by signal %d" % -r.returncode,
                    "violations": [], "inconclusive": [], "rules": {}, "checks": 0, "functions": [],
                    "mem_accesses": 0, "ub_sites": 0, "instructions": 0, "calls": 0, "joins": 0, "nodes": 0,
                    "inputs": 0, "covers_missing": [], "unknown_calls": [], "wall": tl}
        raise Broken("analyser failed on %s: %s" % (entry, r.stderr[-2000:]))
    return json.loads(r.stdout.strip().splitlines()[-1])


def known_findings(pid):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) match=\"([^\"]*)\" (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    conf = config.PROPERTIES[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vp_%s_" % pid)
    try:
        rc = decide(pid, conf, tier, seed, work, t0)
    except Exception as e: # Broken, of this module or of its copy that the rule modules import
        if type(e).__name__ != "Broken":
            raise
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e))
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(pid, conf, tier, seed, work, t0):
    violations, inconclusive, samples, notes = [], [], [], []
    functions, rules = set(), {}
    entries_done, tot = [], {"mem": 0, "ub": 0, "instr": 0, "calls": 0, "joins": 0, "nodes": 0, "inputs": 0, "checks": 0}
    failed_rules = set()
    extra = {}
    variants = os.environ["VP_VARIANTS"].split(",") if os.environ.get("VP_VARIANTS") else conf.get("variants", ["default"])
    if tier == "thorough":
        variants = variants + [v for v in conf.get("thorough_variants", []) if v not in variants]

    if conf.get("harness"):
        r = subprocess.run(["bash", os.path.join(VERIF, "engine", "build.sh")], capture_output=True, text=True)
        if r.returncode != 0:
            raise Broken("engine build: " + r.stderr[-2000:])
        vpa = os.path.join(VERIF, "build", "vpa")
        tl = conf.get("time", 240) if tier == "quick" else conf.get("time_thorough", 1500)
        nodes = conf.get("nodes", 40)
        with cf.ThreadPoolExecutor(8) as pool:
            for variant in variants:
                bc = build_bitcode(pid, conf, variant, tier, work, pool)
                ents = subprocess.run([vpa, "--list", bc], capture_output=True, text=True).stdout.split()
                if not ents:
                    raise Broken("no analysis entries in " + bc)
                futs = [pool.submit(run_entry, vpa, bc, e, conf.get("flags", []), tl, nodes) for e in ents]
                for f in futs:
                    res = f.result()
                    tag = res["entry"] + ("" if variant == "default" else "/" + variant)
                    entries_done.append({"entry": tag, "status": res["status"], "obligations": res["checks"],
                                         "cfg_instructions": res["instructions"], "joins": res["joins"],
                                         "diagram_nodes": res["nodes"], "wall_s": round(res["wall"], 3)})
                    for s in res["functions"]:
                        functions.add(s)
                    for k, n in res["rules"].items():
                        rules[k] = rules.get(k, 0) + n
                    tot["mem"] += res["mem_accesses"]
                    tot["ub"] += res["ub_sites"]
                    tot["instr"] += res["instructions"]
                    tot["calls"] += res["calls"]
                    tot["joins"] += res["joins"]
                    tot["nodes"] += res["nodes"]
                    tot["inputs"] += res["inputs"]
                    tot["checks"] += res["checks"]
                    if res["status"] != "ok":
                        inconclusive.append("%s: %s" % (tag, res["reason"]))
                    for s in res["inconclusive"]:
                        inconclusive.append("%s: %s" % (tag, s))
                    for s in res["unknown_calls"]:
                        notes.append("%s: opaque call %s" % (tag, s))
                    for s in res["covers_missing"]:
                        inconclusive.append("%s: entry never reaches '%s'" % (tag, s))
                    for v in res["violations"]:
                        v["entry"] = tag
                        v["functions"] = res["functions"]
                        violations.append(v)
                        failed_rules.add(v["rule"])

    for mod in conf.get("rules", []):
        m = importlib.import_module(mod[0])
        res = getattr(m, mod[1])(REPO, VERIF, tier, work)
        for v in res["violations"]:
            v.setdefault("entry", mod[1])
            violations.append(v)
            failed_rules.add(v["rule"])
        for k, n in res["rules"].items():
            rules[k] = rules.get(k, 0) + n
            tot["checks"] += n
        for s in res.get("functions", []):
            functions.add(s)
        inconclusive += res.get("inconclusive", [])
        extra[mod[1]] = res.get("coverage", {})
        if not res["rules"]:
            raise Broken("rule %s has no instances" % mod[1])

    # vacuity: the analysis must have seen library code and obligations
    if tot["checks"] + tot["mem"] + tot["ub"] == 0 or (conf.get("harness") and not functions):
        raise Broken("no obligations / no library function analysed")
    if conf.get("harness") and entries_done and all(e["status"] != "ok" for e in entries_done) and not violations:
        raise Broken("no entry could be analysed: " + "; ".join(inconclusive[:3]))

    known = known_findings(pid)
    fresh, used = [], []
    for v in violations:
        text = "%s | %s | %s" % (v.get("rule", ""), v.get("where", ""), v.get("entry", ""))
        hit = next((k for k in known if k[0] in text), None)
        if hit:
            if hit not in used:
                used.append(hit)
        else:
            fresh.append(v)

    obligations = len(rules)
    discharged = len([r for r in rules if r not in failed_rules])
    for e in sorted(rules)[:12]:
        samples.append({"rule": e, "evaluations": rules[e], "status": "violated" if e in failed_rules else "holds"})
    cov = {
        "obligations": obligations + (1 if "--mem" in conf.get("flags", []) else 0) + (1 if "--ub" in conf.get("flags", []) else 0),
        "discharged": 0,
        "obligation_evaluations": tot["checks"],
        "memory_accesses_checked": tot["mem"] if "--mem" in conf.get("flags", []) else 0,
        "arithmetic_sites_checked": tot["ub"] if "--ub" in conf.get("flags", []) else 0,
        "entries": entries_done,
        "library_functions_analysed": len(functions),
        "functions": sorted(functions)[:400],
        "call_sites": tot["calls"],
        "cfg_instructions": tot["instr"],
        "control_flow_joins": tot["joins"],
        "input_bits": tot["inputs"],
        "diagram_nodes": tot["nodes"],
        "rules": rules,
        "rule_applied": conf["rule"],
        "checker_cmd": "python3 checks/check.py " + pid,
        "trusted_base": ["clang 18 front end (IR generation at -O0)", "LLVM SROA / loop-simplify / LCSSA", "/verif/engine (abstract interpreter)",
                         "/verif/harness obligations (specification)", "libstdc++ headers"],
        "samples": samples,
        "inconclusive": inconclusive,
        "notes": sorted(set(notes)),
        "variants": variants,
        "explanation": conf["rule"],
        "structural": extra,
    }
    bad_cat = {v.get("category") for v in violations}
    cov["discharged"] = discharged + (1 if "--mem" in conf.get("flags", []) and "mem" not in bad_cat else 0) + \
        (1 if "--ub" in conf.get("flags", []) and "ub" not in bad_cat else 0)
    if inconclusive:
        cov["discharged"] = max(0, min(cov["discharged"], cov["obligations"] - 1))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": conf["level"], "coverage": cov,
          "assumptions": conf.get("assumptions", []), "wall_s": round(time.time() - t0, 3), "violations": len(fresh)}
    evid = os.environ.get("VP_EVID", os.path.join(VERIF, "evidence"))
    os.makedirs(evid, exist_ok=True)
    with open(os.path.join(evid, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for s in inconclusive[:20]:
        print("INCONCLUSIVE property=%s %s" % (pid, s))
    for k in used:
        print("KNOWN-FINDING: property=%s %s" % (pid, k[1]))
    replay = os.path.join(evid, pid + ".replay.txt")
    if fresh:
        with open(replay, "w") as f:
            for v in fresh:
                f.write("property:  %s\nrule:      %s (%s)\nentry:     %s\n" % (pid, v.get("rule"), v.get("category"), v.get("entry")))
                f.write("construct: %s\n" % (v.get("where") or "; ".join(v.get("functions", [])[:12])))
                f.write("witness:   %s\nvalues:    %s\nstack:     %s\n\n" % (v.get("witness", ""), v.get("detail", ""), v.get("stack", "")))
        for v in fresh[:10]:
            print("violated rule: %s [%s] %s" % (v.get("rule"), v.get("entry"), v.get("where", "")))
            if v.get("witness"):
                print("    witness: %s  %s" % (v.get("witness", "")[:300], v.get("detail", "")))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if os.path.exists(replay):
        os.unlink(replay)
    print("OK property=%s: %d rules, %d obligation evaluations over %d library functions, %d entries (%s), %.1fs" % (
        pid, obligations, tot["checks"], len(functions), len(entries_done), tier, time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
