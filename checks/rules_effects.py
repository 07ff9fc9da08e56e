"""Effect rules: decided by /verif/engine/effects.cpp over the linked IR of the whole library."""
import concurrent.futures as cf
import glob
import json
import os
import subprocess

RT = ["universal_packet.h", "types.h", "channel_voice_message.h", "midi1_channel_voice_message.h", "midi2_channel_voice_message.h",
      "data_message.h", "extended_data_message.h", "flex_data_message.h", "stream_message.h", "system_message.h", "utility_message.h",
      "jitter_reduction_timestamps.h", "manufacturer.h"]


def module(repo, verif, tier, work):
    import check
    out = os.path.join(work, "effects.bc")
    if os.path.exists(out):
        return out
    r = subprocess.run(["bash", os.path.join(verif, "engine", "build.sh")], capture_output=True, text=True)
    if r.returncode != 0:
        raise check.Broken("engine build: " + r.stderr[-2000:])
    base = [x for x in check.cflags("default", tier) if x != "-fno-threadsafe-statics"] + ["-DVP_STATIC_ENTRIES=1"]
    headers = sorted(glob.glob(os.path.join(repo, "inc", "**", "*.h"), recursive=True))
    allh = os.path.join(work, "all_headers.cpp")
    with open(allh, "w") as f:
        for h in headers:
            f.write('#include "%s"\n' % h)
    jobs = [(allh, base + ["-femit-all-decls"])]
    jobs += [(s, base + ["-femit-all-decls"]) for s in sorted(glob.glob(os.path.join(repo, "src", "*.cpp")))]
    # the obligation files instantiate the library's templates
    jobs += [(s, base) for s in sorted(glob.glob(os.path.join(verif, "harness", "P*.cpp"))) if os.path.basename(s) != "P26.cpp"]
    with cf.ThreadPoolExecutor(8) as pool:
        bcs = list(pool.map(lambda j: check.compile_one(j[1][0], os.path.join(work, "eff_%d.bc" % j[0]), j[1][1]), enumerate(jobs)))
    r = subprocess.run([check.LINK, "-o", out] + bcs, capture_output=True, text=True)
    if r.returncode != 0:
        raise check.Broken("llvm-link: " + r.stderr[-2000:])
    return out


def analyse(repo, verif, tier, work):
    import check
    bc = module(repo, verif, tier, work)
    cmd = [os.path.join(verif, "build", "effects"), bc, "--repo", repo.rstrip("/") + "/"]
    for h in RT:
        cmd += ["--rt", "inc/midi/" + h]
    cmd += ["--rt", "src/jitter_reduction_timestamps.cpp"]
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
    if r.returncode != 0:
        raise check.Broken("effect analysis: " + r.stderr[-2000:])
    return json.loads(r.stdout)


def result(a, rules, keep):
    return {"violations": [v for v in a["violations"] if v["rule"] in keep], "rules": rules, "functions": a["functions"], "inconclusive": a["inconclusive"],
            "coverage": {k: v for k, v in a.items() if not isinstance(v, list)}}


def shared_state(repo, verif, tier, work):
    a = analyse(repo, verif, tier, work)
    rules = {"no library function writes to a static object": a["writes"],
             "the library calls no function that keeps or changes process wide state": a["calls"],
             "const member functions do not modify their object": a["const_methods"],
             "arguments passed as const reference or pointer are not modified": a["const_arguments"]}
    return result(a, rules, set(rules))


def real_time(repo, verif, tier, work):
    a = analyse(repo, verif, tier, work)
    n = a["real_time_functions"]
    rules = {"packet functions request no dynamic memory": n, "packet functions do not block": n}
    return result(a, rules, set(rules))
