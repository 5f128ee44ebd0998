"""C12: replay of spec/Imports.tla - every world is written to disk and compiled by the real tool."""
import json, os, posixpath, re, shutil
import tool
from common import CheckError

TARGETS = ["c", "cpp", "go", "py", "cjs", "cs"]


def place(f):
    return ["", "sub/", "sub/deep/"][f % 3] + "f%d.bb" % f


def package(p):
    return ["top", "top.mid", "other"][p % 3] + ".p%d" % p


def spelled(src, dst, sp, root):
    here = posixpath.dirname(place(src))
    rel = posixpath.relpath(place(dst), here or ".")
    ab = posixpath.join(root, place(dst))
    d, b = posixpath.split(ab)
    return [rel, "./" + rel, "sub/../" + rel if here == "" else "../" + posixpath.basename(here) + "/" + rel,
            ab, d + "/./" + b, root + "/sub/../" + place(dst)][sp]


def render(world, f, root):
    w = world[f - 1]
    imps = "".join("import %s%s%s;\n" % (q, spelled(f, i["to"], i["sp"], root), q)
                   for k, i in enumerate(w["imps"]) for q in ["'" if (f + k) % 3 == 0 else '"'])
    o = ["package %s;\n" % package(w["pkg"])]
    if "option" in w["odd"] and f % 2:
        o.append("option odd%d = 1;\n" % f)
    if not w["tail"]:
        o.append(imps)
    if "option" in w["odd"] and not f % 2:
        o.append("option odd%d = 1;\n" % f)
    field = " [odd%d = 1]" % f if "field" in w["odd"] else ""
    for d in w["defs"]:
        if d["kind"] == "enum":
            o.append("enum N%d[1] {\n" % d["name"] + "".join("    N%d%s;\n" % (m["name"], " = N%d" % m["ref"] if m["ref"] else "") for m in d["mem"]) + "}\n")
            continue
        o.append("struct N%d {\n    uint8 own%s;\n" % (d["name"], field))
        field = ""
        if d["inner"]:
            o.append("    struct N%d { uint8 deep; } in0;\n" % d["inner"])
        for i, r in enumerate(d["refs"]):
            if r["what"] == "type":
                o.append("    N%d r%d;\n" % (r["name"], i))
            else:
                o.append("    uint8 k%d = N%d;\n" % (i, r["name"]))
        o.append("}\n")
    if w["tail"]:
        o.append(imps)
    text = "".join(o)
    return text if (f + len(text)) % 3 else re.sub(r"\s+", " ", text) + "\n"


def spans(text):
    """ranges of the package statement, the imports and the definitions of a rendered file"""
    res, n, pos = {}, {}, 0
    for m in re.finditer(r"(package|import) [^;]*;|(enum|struct) N\d+(\[1\])? \{(?:[^{}]|\{[^{}]*\})*\}", text):
        what = m.group(1) or "def"
        n[what] = n.get(what, 0) + 1
        res[what, 0 if what == "package" else n[what]] = m.span()
    return res


def offset(lines, line, col):
    """position in the text of a line and column, or -1"""
    if not 1 <= line <= len(lines) or not 1 <= col <= len(lines[line - 1]):
        return -1
    return sum(len(l) + 1 for l in lines[:line - 1]) + col - 1


def diagnose(run, w, n):
    """C19: the first fault of the world is reported in its file, on a line of the faulty construct."""
    root = os.path.realpath(run.path("d%d" % n, "src", "x"))[:-2]
    files = {place(i + 1): render(w["world"], i + 1, root) for i in range(len(w["world"])) if w["world"][i]["exists"]}
    files["sub/deep/.keep"] = ""
    tool.write_files(root, files)
    out = run.path("d%d" % n, "out", "x")[:-2]
    r = tool.bubbler(run.bin, ["-t", TARGETS[n % len(TARGETS)], "-o", out, [place(1), os.path.join(root, place(1))][n % 2]], root, out)
    shutil.rmtree(os.path.dirname(root), ignore_errors=True)
    det = {"files": files, "world": w, "stderr": r.err}
    if r.crashed():
        return "the tool crashed: exit %s %s" % (r.rc, r.err[:300]), det
    if w["ok"] and r.rc == 0 and "error" not in r.err:
        # every unknown option is warned about where it stands
        got = [(os.path.realpath(p), int(l), int(c)) for p, l, c in re.findall(r"([^\s:]+):(\d+):(\d+):(?:\x1b\[[0-9;]*m|\s)*compile warning", re.sub(r"\x1b\[[0-9;]*m", "", r.err))]
        for f, what in w["warned"]:
            path, text = os.path.join(root, place(f)), files[place(f)]
            want = ("option odd" if what == "option" else "odd") + "%d " % f
            if not any(p == path and text[offset(text.split("\n"), l, c):].startswith(want) for p, l, c in got):
                return "no warning about the unknown %s option in %s" % ({"option": "file", "field": "field"}[what], place(f)), det
        return None
    if w["ok"]:
        return ("exit %d and an error message for a world without faults: %s" % (r.rc, r.err[:300]), det)
    if r.rc == 0:
        return "exit 0, but %s" % w["why"], det
    if not r.err.strip():
        return "failed without a message", det
    at = w["at"]
    if at["f"] == 0:
        return None
    a, b = spans(files[place(at["f"])])[at["what"], at["i"]]
    path = os.path.join(root, place(at["f"]))
    for p, line, col in r.errors():
        if os.path.realpath(p) == path and a <= offset(files[place(at["f"])].split("\n"), line, col) < b:
            return None
    return ("no error is reported between characters %d and %d of %s (%s: %s %d); reported: %s"
            % (a, b, place(at["f"]), w["why"], at["what"], at["i"], [(os.path.relpath(p, root), l, c) for p, l, c in r.errors()]), det)


def outputs(target, pkg):
    p = package(pkg).replace(".", "/")
    return {"c": [p + ".bb.c", p + ".bb.h"], "cpp": [p + ".bb.cpp", p + ".bb.hpp"], "py": [p + "_bb.py"], "cjs": [p + ".bb.js"],
            "cs": [p + ".bb.cs"], "go": [p + "/" + p.split("/")[-1] + ".bb.go"]}[target]


def replay(run, w, n):
    """-> list of problems"""
    root = os.path.realpath(run.path("w%d" % n, "src", "x"))[:-2]
    files = {place(i + 1): render(w["world"], i + 1, root) for i in range(len(w["world"])) if w["world"][i]["exists"]}
    files["sub/deep/.keep"] = ""
    tool.write_files(root, files)
    target = TARGETS[n % len(TARGETS)]
    out = run.path("w%d" % n, "out", "x")[:-2]
    main = [place(1), "./" + place(1), os.path.join(root, place(1)), root + "/sub/../" + place(1)][n % 4]
    r = tool.bubbler(run.bin, ["-v", "-t", target, "-o", out, main], root, out)
    probs = []
    if r.crashed():
        probs.append("the tool crashed: exit %s %s" % (r.rc, r.err[:300]))
    elif not w["ok"]:
        if r.rc == 0:
            probs.append("accepted, but must fail (%s)" % w["why"])
        if r.files:
            probs.append("failed, yet wrote %s" % sorted(r.files))
        if r.rc != 0 and not r.err.strip():
            probs.append("failed without a message")
        one = os.path.join(os.path.dirname(out), "one")
        r1 = tool.bubbler(run.bin, ["-t", ["c", "py", "cs", "esm"][n // 4 % 4], "-single", "-o", one, main], root, one)
        if r1.rc == 0 or os.path.exists(one):
            probs.append("accepted with -single, but must fail (%s)" % w["why"])
    elif r.rc != 0:
        probs.append("rejected: " + r.err.strip()[:600])
    else:
        order = [os.path.realpath(x) for x in re.findall(r"^\[bubbler:v\]   source: (.*)$", r.out, re.M)]
        name = {os.path.realpath(os.path.join(root, place(f))): f for f in w["order"]}
        got = [name.get(x, x) for x in order]
        if sorted(map(str, got)) != sorted(map(str, w["order"])):
            probs.append("compiled %s, expected each of %s once" % (got, w["order"]))
        for i, f in enumerate(got):
            for g in w["world"][f - 1]["imps"] if isinstance(f, int) else ():
                if g["to"] not in got[:i]:
                    probs.append("file %s is compiled before file %d, which it imports: %s" % (f, g["to"], got))
        want = sorted(x for f in w["order"] for x in outputs(target, w["world"][f - 1]["pkg"]))
        if sorted(r.files) != want:
            probs.append("-t %s wrote %s, expected %s" % (target, sorted(r.files), want))
        else:
            probs += once(w, {k: v.decode() for k, v in r.files.items()}, target)
            one = os.path.join(os.path.dirname(out), "one.h")
            r1 = tool.bubbler(run.bin, ["-t", "c", "-single", "-o", one, main], root, one)
            if r1.rc != 0 or not os.path.exists(one):
                probs.append("-single failed: %s" % r1.err[:300])
            else:
                probs += once(w, {"one.h": open(one).read()}, "c")
    shutil.rmtree(os.path.dirname(root), ignore_errors=True)
    return [(p, files, main, target) for p in probs]


def once(w, files, target):
    """Every definition of every compiled file appears in exactly one place, after what it uses."""
    if target != "c":
        return []
    probs = []
    text = "".join(v for k, v in files.items() if k.endswith(".h"))
    for f in w["order"]:
        for d in w["world"][f - 1]["defs"]:
            k = len(re.findall(r"^(?:typedef )?%s N%d(?: \w+)? \{" % (("struct", d["name"]) if d["kind"] == "struct" else ("enum", d["name"])), text, re.M))
            if k != 1:
                probs.append("%s N%d is defined %d times in the C output" % (d["kind"], d["name"], k))
    return probs


def draw(run, jobs):
    futs = []
    for i, (name, env, sim) in enumerate(jobs):
        env["OUT"] = run.path("imports", name + ".jsonl")
        futs.append((name, env["OUT"], run.pool.submit(run.tlc, "Imports", None, env, sim, 200, run.seed * 50 + i, 1, 3000, "4g" if run.thorough else "2g")))
    worlds = []
    for name, out, f in futs:
        f.result()
        with open(out) as fh:
            ws = [json.loads(l) for l in fh]
        run.notes[name] = len(ws)
        worlds += ws
    return worlds


def check(run):
    run.bubbler()
    jobs = [("graph3", {"MODE": "graph", "NFILES": 3, "STRIDE": 1 if run.thorough else 3, "PHASE": run.seed}, None),
            ("dag4", {"MODE": "dag", "NFILES": 4, "STRIDE": 1, "PHASE": 0}, None),
            ("dag5", {"MODE": "dag", "NFILES": 5, "STRIDE": 1 if run.thorough else 19, "PHASE": run.seed}, None)]
    if run.thorough:
        jobs.append(("graph4", {"MODE": "graph", "NFILES": 4, "STRIDE": 3, "PHASE": run.seed}, None))
    for i in range(4):
        jobs.append(("random%d" % i, {"MODE": "random", "NFILES": 3 + i, "STRIDE": 1, "PHASE": 0}, 3000 if run.thorough else 300))
    worlds = draw(run, jobs)
    run.log("%d worlds, %d acceptable" % (len(worlds), sum(w["ok"] for w in worlds)))
    run.notes["acceptable"] = sum(w["ok"] for w in worlds)
    for n, res in zip(range(len(worlds)), run.pool.map(lambda a: replay(run, a[1], a[0]), list(enumerate(worlds)))):
        run.count("traces_validated_against_impl")
        for what, files, main, target in res:
            run.violation("imports: " + what, {"files": files, "main": main, "target": target, "world": worlds[n]})
    run.cov["samples"] = [worlds[-1]]
