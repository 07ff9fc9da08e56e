"""Type level rules: witnesses decided by the C++ type checker / constant evaluator (-fsyntax-only)."""
import os
import re
import subprocess


def contracts(repo, verif, tier, work):
    return witnesses(repo, verif, tier, work, "witnesses.cpp")


def constants(repo, verif, tier, work):
    return witnesses(repo, verif, tier, work, "constants.cpp")


def witnesses(repo, verif, tier, work, name):
    import check
    src = os.path.join(verif, "types", name)
    lines = open(src).read().splitlines()
    rules = {}
    by_line = {}
    for i, l in enumerate(lines, 1):
        m = re.match(r'R\("([^"]*)"', l)
        if m:
            rules[m.group(1)] = rules.get(m.group(1), 0) + 1
            by_line[i] = m.group(1)
    inc = ["-I", os.path.join(repo, "inc"), "-Wno-everything", "-DNDEBUG", "-fsyntax-only", "-ferror-limit=0", "-fno-color-diagnostics", "-fno-caret-diagnostics", "-ftemplate-backtrace-limit=0"]
    # the headers alone
    head = os.path.join(work, "head.cpp")
    open(head, "w").write("\n".join(l for l in lines if l.startswith("#include")) + "\n")
    violations, cov = [], {}
    stds = ["-std=c++17"] + (["-std=c++20"] if tier == "thorough" else [])
    inconclusive = []
    for std in stds:
        r = subprocess.run([check.CLANG, std] + inc + [head], capture_output=True, text=True)
        if r.returncode != 0:
            raise check.Broken("headers do not compile: " + r.stderr[-2000:])
        r = subprocess.run([check.CLANG, std] + inc + [src], capture_output=True, text=True)
        cov["witnesses" + std] = len(by_line)
        if r.returncode == 0:
            continue
        # attribute every error to the witness line it is in, or to the witness line of a note that follows it
        cur, msg, hit = None, None, False
        pending = []
        for l in r.stderr.splitlines():
            m = re.match(r"(.*?):(\d+):(\d+): (error|note|fatal error): (.*)", l)
            if not m:
                continue
            if m.group(4) != "note":
                if msg and not hit:
                    pending.append(msg)
                msg, hit = l, False
            if os.path.realpath(m.group(1)) == os.path.realpath(src) and int(m.group(2)) in by_line and not hit:
                hit = True
                rule = by_line[int(m.group(2))]
                err = re.sub(r".*?: error: ", "", msg)
                if m.group(4) == "note" or "static assertion" in msg or "constant expression" in msg:
                    violations.append({"category": "type", "rule": rule, "where": "%s:%s (%s)" % ("witness", m.group(2), std), "detail": err[:300], "witness": lines[int(m.group(2)) - 1][:300]})
                else:
                    inconclusive.append("witness of '%s' does not apply: %s" % (rule, err[:200]))
        if msg and not hit:
            pending.append(msg)
        for p in pending:
            inconclusive.append("type witnesses: " + p[:200])
    return {"violations": violations, "rules": rules, "functions": [], "inconclusive": inconclusive, "coverage": cov}
