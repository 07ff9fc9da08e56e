"""Packet text form: the sources of the library that use the standard streams are compiled against the stream model in model/ and interpreted.
If they use a part of the standard streams that the model lacks, the rule is undecided, not violated."""
import concurrent.futures as cf
import os
import subprocess


def text(repo, verif, tier, work):
    import check
    r = subprocess.run(["bash", os.path.join(verif, "engine", "build.sh")], capture_output=True, text=True)
    if r.returncode != 0:
        raise check.Broken("engine build: " + r.stderr[-2000:])
    vpa = os.path.join(verif, "build", "vpa")
    res = {"violations": [], "rules": {}, "functions": [], "inconclusive": [], "coverage": {}}
    conf = {"harness": ["P26.cpp"], "lib": ["universal_packet.cpp"], "cflags": ["-isystem", os.path.join(verif, "model")]}
    with cf.ThreadPoolExecutor(8) as pool:
        try:
            bc = check.build_bitcode("P26", conf, "default", tier, work, pool)
        except check.Broken as e:
            # a real error is one without the model, too
            probe = [os.path.join(repo, "src", f) for f in sorted(os.listdir(os.path.join(repo, "src"))) if f.endswith(".cpp")]
            for i, f in enumerate(probe):
                check.compile_one(f, os.path.join(work, "probe%d.bc" % i), check.cflags("default", tier))
            res["inconclusive"].append("the stream model does not cover what the library uses: " + str(e).split("error:")[-1].strip().split("\n")[0])
            res["rules"]["the text form of packets (undecided)"] = 1
            return res
        ents = subprocess.run([vpa, "--list", bc], capture_output=True, text=True).stdout.split()
        futs = [pool.submit(check.run_entry, vpa, bc, e, ["--mem", "--ub", "--abort"], 240 if tier == "quick" else 1500, 40) for e in ents]
        fn = set()
        for f in futs:
            x = f.result()
            fn.update(x["functions"])
            if x["status"] != "ok":
                res["inconclusive"].append("%s: %s" % (x["entry"], x["reason"]))
            res["inconclusive"] += ["%s: %s" % (x["entry"], s) for s in x["inconclusive"]]
            for k, v in x["rules"].items():
                res["rules"][k] = res["rules"].get(k, 0) + v
            res["violations"] += [dict(v, entry=x["entry"]) for v in x["violations"]]
        res["functions"] = sorted(fn)
        res["coverage"] = {"entries": len(ents)}
    return res
