"""Public headers as a user meets them: each one alone, twice, in any company, in every configuration and from several translation units."""
import concurrent.futures as cf
import os
import re
import subprocess

CONFIGS = [("C++17", ["-std=c++17", "-DNDEBUG"]), ("C++17 with assertions", ["-std=c++17"]), ("C++20", ["-std=c++20", "-DNDEBUG"]),
           ("C++20 with pmr sysex data", ["-std=c++20", "-DNDEBUG", "-DNIMIDI2_PMR_SYSEX_DATA=1"]),
           ("C++17 with a custom sysex allocator", ["-std=c++17", "-DNDEBUG", "-DNIMIDI2_CUSTOM_SYSEX_DATA_ALLOCATOR=1"]),
           ("C++17 without exceptions and rtti", ["-std=c++17", "-DNDEBUG", "-fno-exceptions", "-fno-rtti"])]


def headers(repo, verif, tier, work):
    import check
    inc = os.path.join(repo, "inc")
    names = sorted(os.path.relpath(os.path.join(d, f), inc) for d, _, fs in os.walk(inc) for f in fs if f.endswith((".h", ".hpp")))
    if not names:
        raise check.Broken("no public headers")
    base = [check.CLANG, "-x", "c++", "-I", inc, "-Wno-everything", "-fno-color-diagnostics", "-fno-caret-diagnostics"]
    rules, violations = {}, []

    def first_error(text):
        m = re.search(r"^(.*?):(\d+):\d+: (?:fatal )?error: (.*)$", text, re.M)
        return ("%s:%s" % (os.path.relpath(m.group(1), repo) if m.group(1).startswith(repo) else m.group(1), m.group(2)), m.group(3)) if m else ("", text.strip()[-300:])

    def job(rule, tag, text, flags):
        p = os.path.join(work, re.sub(r"\W", "_", tag) + ".cpp")
        open(p, "w").write(text)
        r = subprocess.run(base + flags + ["-fsyntax-only", p], capture_output=True, text=True)
        return rule, tag, None if r.returncode == 0 else first_error(r.stderr)
    jobs = []
    for n in names:
        one = "#include <%s>\n" % n
        for c, flags in CONFIGS:
            jobs.append(("every header can be included on its own (%s)" % c, "%s alone, %s" % (n, c), one, flags))
        jobs.append(("every header can be included twice", n + " twice", one + one, CONFIGS[0][1]))
        for m in names:
            if tier == "thorough" or m > n:
                jobs.append(("headers can be included in any order", "%s after %s" % (n, m), "#include <%s>\n" % m + one, CONFIGS[0][1]))
    with cf.ThreadPoolExecutor(8) as pool:
        for rule, tag, err in pool.map(lambda j: job(*j), jobs):
            rules[rule] = rules.get(rule, 0) + 1
            if err:
                violations.append({"category": "type", "rule": rule, "where": err[0], "detail": err[1][:300], "witness": tag})
        # several translation units: nothing is defined twice, and the library itself is one of them
        for c, flags in (CONFIGS[0], CONFIGS[3]):
            rule = "headers can be used in several translation units (%s)" % c
            units = []
            for i in (1, 2):
                p = os.path.join(work, "unit%d.cpp" % i)
                open(p, "w").write("".join("#include <%s>\n" % n for n in (names if i == 1 else reversed(names))))
                units.append(p)
            units += [os.path.join(repo, "src", f) for f in sorted(os.listdir(os.path.join(repo, "src"))) if f.endswith(".cpp")]
            outs = list(pool.map(lambda u: (u, subprocess.run(base + flags + ["-O0", "-emit-llvm", "-c", u, "-o", os.path.join(work, "u_" + os.path.basename(u) + ".bc")], capture_output=True, text=True)), units))
            rules[rule] = len(units)
            bad = [(u, o) for u, o in outs if o.returncode != 0]
            for u, o in bad:
                w, d = first_error(o.stderr)
                violations.append({"category": "type", "rule": rule, "where": w, "detail": d[:300], "witness": os.path.basename(u)})
            if not bad:
                r = subprocess.run([check.LINK, "-o", os.path.join(work, "units.bc")] + [os.path.join(work, "u_" + os.path.basename(u) + ".bc") for u in units], capture_output=True, text=True)
                if r.returncode != 0:
                    violations.append({"category": "type", "rule": rule, "where": "link", "detail": r.stderr.strip()[-300:], "witness": "two translation units including all headers"})
    return {"violations": violations, "rules": rules, "functions": names, "inconclusive": [], "coverage": {"headers": len(names), "translation_units": len(jobs)}}
