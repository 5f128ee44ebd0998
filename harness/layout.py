"""C11, C13 and C19: replay of spec/Layout.tla in the real tool."""
import json, os, re, shutil, subprocess, sys
import tool, worlds
from common import CheckError

BASICS = ["", "bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"]
HUGE = "0x2000000000000001"


def size(n, salt):
    """n bits (or one of the special sizes) in one of its spellings"""
    if n == -1:
        return ""
    if n == -2:
        return "[%s%s]" % (HUGE, "#3" if salt % 3 == 0 else "")
    if n == 0:
        return ["[0]", "[#0]", "[0#0]", "[0x0]"][salt % 4]
    k = salt % 4
    if k == 0 and n % 8 == 0:
        return "[%d]" % (n // 8)
    if k == 1 and n >= 8:
        return "[%d#%d]" % (n // 8, n % 8)
    if k == 2 and n >= 16:
        return "[%s#0x%x]" % (oct(n // 8 - 1).replace("o", ""), n % 8 + 8)
    return "[#%d]" % n


def gname(n, bad=False):
    return ("t%d" if bad else "T%d") % n


def fname(n, bad=False):
    return ("F%d" if bad else "f%d") % n


LITS = {"int": ["7", "0x1f", "01"], "neg": ["-1", "-0x2"], "bool": ["true", "false"], "float": ["1.5", "-2.25e1", ".5"], "string": ['"a"', "'b'"]}


def typ(t, ind, salt):
    if t["base"] == "inner":
        d = t["def"][0]
        o = "struct %s%s {\n" % (gname(d["name"], d["bad"]), size(d["size"], salt))
        for f in d["fields"]:
            o += ind + "    %s %s%s;\n" % (BASICS[f["b"]], fname(f["name"]), size(f["size"], salt))
        s = o + ind + "}"
    elif t["base"] == "basic":
        s = BASICS[t["b"]]
    elif t["base"] in ("string", "bytes"):
        s = t["base"]
    else:
        s = {"ident": "", "struct": "struct ", "enum": "enum "}[t["base"]] + gname(t["name"])
    if t["len"] != -1:
        s += "<%s>" % (HUGE if t["len"] == -2 else t["len"])
    return s


OPTS = {"big": 'order = "big"', "little": "order = 'little'", "odd": "odd = 7", "odd2": 'odd2="big"', "middle": 'order = "middle"', "upper": 'order = "BIG"',
        "bool": "order = true", "int": "order = 1", "float": "order = 1.5"}


def field(f, salt):
    ind = "    "
    os = " [%s]" % ", ".join(OPTS[o] for o in f["opts"]) if f["opts"] else ""
    if f["kind"] == "void":
        return ind + "void %s%s;\n" % (size(f["size"], salt), os)
    if f["kind"] == "const":
        l = f["lit"]
        v = gname(l["name"]) if l["kind"] in ("member", "typename") else LITS[l["kind"]][salt % len(LITS[l["kind"]])]
        return ind + "%s%s%s = %s%s;\n" % (BASICS[f["t"]["b"]], " " + fname(f["name"], f["bad"]) if f["name"] else " ", size(f["size"], salt), v, os)
    if f["kind"] == "embed":
        return ind + typ(f["t"], ind, salt) + os + ";\n"
    o = ind + "%s %s%s%s" % (typ(f["t"], ind, salt), fname(f["name"], f["bad"]), size(f["size"], salt), os)
    if f["hasm"]:
        o += " {\n"
        for m in f["meth"]:
            o += ind + "    %s %s(%s): value;\n" % ("set" if m["set"] else "get", fname(m["name"], m["bad"]), BASICS[m["b"]])
        o += ind + "}"
    return o + ";\n"


def definition(d, salt):
    """-> list of texts, one per construct: head, fields/members, closing"""
    parts = []
    if d["kind"] == "enum":
        parts.append("enum %s%s {\n" % (gname(d["name"], d["bad"]), size(d["size"], salt)))
        for i, m in enumerate(d["mem"]):
            v = {"auto": "", "int": " = %d" % m["v"], "ref": " = " + gname(m["v"]), "neg": " = -%d" % (m["v"] + 1), "float": " = 1.5",
                 "bool": " = true", "string": ' = "x"'}[m["kind"]]
            if m["kind"] == "int" and (salt + i) % 3 == 0:
                v = " = 0x%x" % m["v"]
            parts.append("    %s%s%s\n" % (gname(m["name"], m["bad"]), v, ",;"[(salt + i) % 2]))
    else:
        parts.append("struct %s%s {\n" % (gname(d["name"], d["bad"]), size(d["size"], salt)))
        for i, f in enumerate(d["fields"]):
            parts.append(field(f, salt + 3 * i))
    parts.append("}\n" if salt % 2 else "};\n")
    return parts


def render(defs, salt, pkg="lay"):
    """-> text, and for every definition the ranges of its constructs in it; now and then all on one line"""
    text = "package %s;\n\n" % pkg
    dense = salt % 4 == 1
    spans = []
    for i, d in enumerate(defs):
        sp = []
        for p in definition(d["def"], salt + i):
            if dense:
                p = re.sub(r"\s+", " ", p)
            a = len(text)
            text += p
            sp.append((a, len(text)))
        spans.append(sp)
        if not dense:
            text += "\n"
    return text + "\n" * dense, spans


def judge_errors(defs, spans, errs, ok, lines):
    """C19: every independently faulty definition is reported at a faulty construct, and nothing else is."""
    probs = []
    seen = set()
    for path, line, col in errs:
        o = worlds.offset(lines, line, col)
        at = [(i, k) for i in range(len(defs)) for k, (a, b) in enumerate(spans[i]) if a <= o < b]
        if not at:
            probs.append("error reported at %d:%d, where no definition is" % (line, col))
            continue
        i, k = at[0]
        seen.add(i)
        d = defs[i]
        if d["dep"]:
            continue
        if not d["at"]:
            probs.append("error reported in definition %d (%d:%d), which is fine" % (i + 1, line, col))
        elif k not in d["at"]:
            probs.append("error reported at %d:%d, construct %d of definition %d; the faulty ones are %s" % (line, col, k, i + 1, d["at"]))
    for i, d in enumerate(defs):
        if d["at"] and not d["dep"] and i not in seen:
            probs.append("nothing reported for definition %d, which is faulty at %s" % (i + 1, d["at"]))
    return probs


def lenient(defs):
    """A definition whose every fault stems from an earlier faulty one may be reported or not."""
    return any(d["at"] and not d["dep"] for d in defs)


def replay(run, w, n, imported=False, probe=None, spoil=None):
    defs = w["defs"]
    text, spans = render(defs, n)
    if spoil is not None:
        # a character that no token contains, on a chosen line
        k = spoil % text.count("\n")
        ls = text.split("\n")
        ls[k] += " @"
        text = "\n".join(ls)
    root = os.path.realpath(run.path("l%d" % n, "src", "x"))[:-2]
    files = {"a.bb": text}
    main = "a.bb"
    if imported:
        files["main.bb"] = 'package main;\nimport "a.bb";\nstruct Top { uint8 x; }\n'
        main = "main.bb"
    tool.write_files(root, files)
    out = run.path("l%d" % n, "out", "x")[:-2]
    target = ["py", "c", "go", "cpp", "cjs", "cs"][n % 6] if probe is None else "py"
    r = tool.bubbler(run.bin, ["-t", target, "-o", out, main], root, out)
    ok = spoil is None and not any(d["at"] for d in defs)
    res = {"crash": r.crashed(), "rc": r.rc, "ok": ok, "err": r.err, "files": sorted(r.files), "text": text, "n": n, "errs": [], "probs": []}
    if not ok and r.rc == 1 and not r.crashed():
        # the errors of the imported file are nested, one indentation level down; deeper ones explain
        pre = r"^\t" if imported else r"^"
        path = os.path.join(root, "a.bb")
        for line in r.err.split("\n"):
            line = line.replace("        ", "\t")
            m = re.match(pre + r"(\S[^:]*):(\d+):(\d+): [a-z]+ error", line)
            if m:
                res["errs"].append((m.group(1), int(m.group(2)), int(m.group(3))))
                if os.path.realpath(m.group(1)) != path:
                    res["probs"].append("error reported in %s, but it is in %s" % (m.group(1), path))
        if spoil is None:
            res["probs"] += judge_errors(defs, spans, res["errs"], ok, text.split("\n"))
        elif k + 1 not in [l for _, l, _ in res["errs"]]:
            res["probs"].append("nothing reported for line %d, which has an illegal character: %s" % (k + 1, res["errs"]))
    if ok and r.rc == 0:
        # an unknown option is warned about where it stands
        warns = [worlds.offset(text.split("\n"), int(a), int(b)) for a, b in re.findall(r"a\.bb:(\d+):(\d+):(?:\x1b\[[0-9;]*m|\s)*compile warning", r.err)]
        for i, d in enumerate(defs):
            for k, f in enumerate(d["def"]["fields"]):
                for o in f["opts"]:
                    a, b = spans[i][k + 1]
                    if o.startswith("odd") and not any(a <= x < b and re.match(o + r"\b", text[x:]) for x in warns):
                        res["probs"].append("option %s of field %d of definition %d is unknown, but not warned about: %s" % (o, k + 1, i + 1, r.err[-300:]))
    if ok and r.rc == 0 and probe is not None:
        res["py"] = [v.decode() for k, v in r.files.items() if k.endswith("_bb.py")]
        res["sizes"] = [(gname(d["def"]["name"]), d["bits"] // 8) for d in defs if d["def"]["kind"] == "struct" and d["bits"] >= 0]
    shutil.rmtree(os.path.dirname(root), ignore_errors=True)
    return res


def draw(run, jobs):
    """jobs: (name, env, sim) -> {name: worlds}"""
    futs = []
    for i, (name, env, sim) in enumerate(jobs):
        env["OUT"] = run.path("layout", name + ".jsonl")
        futs.append((name, env["OUT"], run.pool.submit(run.tlc, "Layout", None, env, sim, 400, run.seed * 50 + i, 1, 3000, "4g" if run.thorough else "2g")))
    res = {}
    for name, out, f in futs:
        f.result()
        with open(out) as fh:
            res[name] = [json.loads(l) for l in fh]
        run.notes[name] = len(res[name])
    return res


PROBE = r'''
import sys, json
for line in sys.stdin:
    j = json.loads(line)
    ns = {"__name__": "gen"}
    enums = "(Enum):" in j["py"]
    bad = []
    try:
        exec(compile(j["py"], "gen", "exec"), ns)
        for name, size in j["sizes"]:
            o = ns[name]()
            a = o.encode_size()
            b = size if enums else len(o.encode())  # an enum field has no value at first
            if a != size or b != size:
                bad.append("%s has %d bytes, encode_size() is %d and encode() gives %d" % (name, size, a, b))
    except Exception as e:
        bad.append("the generated Python fails: %s: %s" % (type(e).__name__, e))
    print(json.dumps({"n": j["n"], "bad": bad}))
'''


def check_c11(run):
    run.bubbler()
    k = 3000 if run.thorough else 350
    jobs = [("grid", {"MODE": "grid", "NDEFS": 4, "RATE": 100}, None)]
    jobs.append(("scope", {"MODE": "scope", "NDEFS": 3 if run.thorough else 2, "RATE": 100}, None))
    for i in range(5):
        jobs.append(("random%d" % i, {"MODE": "random", "NDEFS": 1 + i, "RATE": [100, 50, 25, 20, 15][i]}, k))
    got = draw(run, jobs)
    grid = got.pop("grid") + got.pop("scope")
    worlds = grid + [w for v in got.values() for w in v]
    run.notes["acceptable"] = sum(not any(d["at"] for d in w["defs"]) for w in worlds)
    run.log("%d files, %d acceptable" % (len(worlds), run.notes["acceptable"]))
    feed = []
    for n, r in enumerate(run.pool.map(lambda a: replay(run, a[1], a[0], probe=1 if a[0] % 2 else None), list(enumerate(worlds)))):
        run.count("traces_validated_against_impl")
        w = worlds[n]
        det = {"text": r["text"], "world": w, "stderr": r["err"]}
        if r["crash"]:
            run.violation("layout: the tool crashed: exit %s: %s" % (r["rc"], r["err"][-400:]), det)
        elif r["ok"] and r["rc"] != 0:
            run.violation("layout: a well-formed file is rejected: %s" % r["err"].strip()[:400], det)
        elif not r["ok"] and r["rc"] == 0:
            bad = [(i + 1, d["at"]) for i, d in enumerate(w["defs"]) if d["at"]]
            run.violation("layout: an ill-formed file is accepted (definition, constructs: %s)\n%s" % (bad, r["text"][-300:]), det)
        elif not r["ok"] and (r["files"] or not r["err"].strip()):
            run.violation("layout: a rejected file %s" % ("leaves " + str(r["files"]) if r["files"] else "gives no message"), det)
        for py in r.get("py", ()):
            feed.append(json.dumps({"n": n, "py": py, "sizes": r["sizes"]}))
    p = subprocess.run([sys.executable, "-c", PROBE], input="\n".join(feed), capture_output=True, text=True, timeout=800)
    if p.returncode != 0:
        raise CheckError("probe: " + p.stderr[-2000:])
    for line in p.stdout.split("\n"):
        if line.strip():
            j = json.loads(line)
            run.count("size_probes")
            for b in j["bad"]:
                run.violation("layout: " + b, {"world": worlds[j["n"]], "text": render(worlds[j["n"]]["defs"], j["n"])[0]})
    run.cov["samples"] = [worlds[-1]]


def check_c19(run):
    """exit status, and where errors are reported"""
    run.bubbler()
    k = 2500 if run.thorough else 220
    got = draw(run, [("random%d" % i, {"MODE": "random", "NDEFS": 1 + i, "RATE": [100, 80, 60, 100, 40, 150][i]}, k) for i in range(6)])
    ws = [w for v in got.values() for w in v]

    def one(a):
        n, w = a
        if n % 9 == 0:
            return replay(run, w, n, imported=n % 2 == 0, spoil=n // 9)
        return replay(run, w, n, imported=n % 3 == 1)
    multi = 0
    for n, r in enumerate(run.pool.map(one, list(enumerate(ws)))):
        run.count("traces_validated_against_impl")
        det = {"text": r["text"], "world": ws[n], "stderr": r["err"]}
        multi += len({e[1] for e in r["errs"]}) > 1
        if r["crash"]:
            run.violation("diagnostics: the tool crashed: exit %s: %s" % (r["rc"], r["err"][-400:]), det)
        elif r["ok"] != (r["rc"] == 0):
            run.violation("diagnostics: exit status %d for %s input: %s" % (r["rc"], "well-formed" if r["ok"] else "faulty", r["err"].strip()[:300]), det)
        elif r["ok"] != bool(r["files"]):
            run.violation("diagnostics: exit status %d and files %s" % (r["rc"], r["files"]), det)
        elif r["ok"] and " error" in r["err"]:
            run.violation("diagnostics: success, with an error message: %s" % r["err"].strip()[:300], det)
        for p in r["probs"]:
            run.violation("diagnostics: " + p, det)
    run.notes["files_with_several_errors"] = multi
    run.log("%d files, %d with several errors" % (len(ws), multi))
    worlds_ = worlds.draw(run, [("imports%d" % i, {"MODE": "random", "NFILES": 3 + i, "STRIDE": 1, "PHASE": 0}, 2500 if run.thorough else 250) for i in range(3)]
                          + [("graph3", {"MODE": "graph", "NFILES": 3, "STRIDE": 1 if run.thorough else 23, "PHASE": run.seed}, None)])
    for n, bad in enumerate(run.pool.map(lambda a: worlds.diagnose(run, a[1], a[0]), list(enumerate(worlds_)))):
        run.count("traces_validated_against_impl")
        if bad:
            run.violation("diagnostics: " + bad[0], bad[1])
    run.cov["samples"] = [ws[-1], worlds_[-1]]
