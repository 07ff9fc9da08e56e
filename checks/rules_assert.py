"""The library's assertions as obligations: every entry of the listed obligation files is interpreted over a build with
assertions enabled; a reachable assertion failure is a violation."""
import concurrent.futures as cf
import os
import re
import subprocess

SOURCES = ["P02", "P03", "P04", "P05", "P06", "P07", "P08", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20"]


def assertions(repo, verif, tier, work):
    import check
    import config
    r = subprocess.run(["bash", os.path.join(verif, "engine", "build.sh")], capture_output=True, text=True)
    if r.returncode != 0:
        raise check.Broken("engine build: " + r.stderr[-2000:])
    vpa = os.path.join(verif, "build", "vpa")
    violations, inconclusive, functions = [], [], set()
    rules, entries = {}, 0
    with cf.ThreadPoolExecutor(8) as pool, cf.ThreadPoolExecutor(4) as outer:
        def build(pid):
            conf = config.PROPERTIES[pid]
            w = os.path.join(work, "assert_" + pid)
            os.makedirs(w, exist_ok=True)
            bc = check.build_bitcode(pid, conf, "assert", tier, w, pool)
            return pid, bc, subprocess.run([vpa, "--list", bc], capture_output=True, text=True).stdout.split()
        built = list(outer.map(build, SOURCES))
        tl = 240 if tier == "quick" else 1500
        futs = [(pid, pool.submit(check.run_entry, vpa, bc, e, ["--abort"], tl, 40)) for pid, bc, ents in built for e in ents
                if tier == "thorough" or not re.search(r"_(16384|20000|70000)$", e)]
        for pid, f in futs:
            res = f.result()
            entries += 1
            tag = pid + ":" + res["entry"]
            rule = "no assertion fails in the runs of " + pid
            rules[rule] = rules.get(rule, 0) + res["calls"]
            functions.update(res["functions"])
            if res["status"] != "ok":
                inconclusive.append("%s: %s" % (tag, res["reason"]))
            for v in res["violations"]:
                if v["category"] != "abort":
                    continue
                v["entry"] = tag
                v["detail"] = v["rule"]
                v["rule"] = rule
                violations.append(v)
    return {"violations": violations, "rules": rules, "functions": sorted(functions), "inconclusive": inconclusive, "coverage": {"entries": entries}}
