"""C15: replay of spec/Output.tla - whole runs of the command line tool, and everything they leave on disk."""
import json, os, re, shutil
import tool
from common import CheckError

OPTION = {"go": ("go_package", "/"), "java": ("java_package", "."), "kt": ("kotlin_package", ".")}


def unit_text(w, k, n):
    """the source of unit k (0-based)"""
    us = w["units"]
    u = us[k]
    last = k == len(us) - 1
    o = []
    if u["fault"] != "nopkg":
        o.append("package %s;\n" % ".".join(u["pkg"]))
    if u["fault"] == "twopkg":
        o.append("package %s;\n" % ".".join(u["pkg"] + ["again"]))
    opts = []
    if u["omit"] != "none":
        opts.append("omit_empty = %s" % u["omit"])
    for key, (name, sep) in OPTION.items():
        if u[key]:
            opts.append('%s = "%s"' % (name, sep.join(u[key])))
    if u["cpp"]:
        opts.append('cpp_namespace = "ns%d::inner"' % k)
    if u["cs"]:
        opts.append('csharp_namespace = "Ns%d.Inner"' % k)
    if u["unknown"]:
        opts.append("no_such_option = 5")
    if u["fault"] == "optkind":
        opts.append(['cpp_namespace = true', 'csharp_namespace = 3'][n % 2] if u["omit"] != "none" or n % 3 else 'omit_empty = "true"')
        if u["cpp"] and u["cs"]:
            opts = [x for x in opts if not x.startswith(("cpp_namespace = \"", "csharp_namespace = \""))]
    if u["fault"] == "opttwice":
        opts += ['php = 1', 'php = 1'] if not opts else [opts[n % len(opts)]]
    opts = ["option %s;\n" % x for x in opts]
    if n % 2:
        opts.reverse()
    imps = []
    if last:
        imps = ['import "u%d.bb";\n' % i for i in range(len(us) - 1)]
        if u["fault"] == "samepkg":
            imps.append('import "u%d.bb";\n' % k)
    elif u["fault"] == "samepkg":
        imps = ['import "u%d.bb";\n' % (len(us) - 1)]
    o += imps + opts if n % 3 else opts + imps
    for t in u["types"]:
        if t["kind"] == "enum":
            o.append("enum %s[1] {\n    %s_A;\n    %s_B;\n}\n" % (t["name"], t["name"].upper(), t["name"].upper()))
        else:
            o.append("struct %s {\n    uint8 x;\n" % t["name"] + "".join("    struct %s {\n        uint16 z;\n    } y%d;\n" % (i, j) for j, i in enumerate(t["inner"])) + "}\n")
    if u["fault"] == "type":
        o.append("struct Broken%d {\n    Missing m;\n}\n" % k)
    if u["fault"] == "syntax":
        o.append("struct {\n")
    return "".join(o)


OTHER = ["-minimal", "-decnum", "-memcpy", "-compat"]


def command(w, n, root):
    """-> arguments, the path given to -o (absolute) or None"""
    a = w["args"]
    s = a["spell"]
    out = None
    args = []
    if a["cli"] != "notarget":
        args += ["-t", a["target"] if a["cli"] != "badtarget" else ["rust", "C", "pythn", "c "][n % 4]]
    if a["out"] != "none":
        rel = "gen/deep/out" if a["out"] == "dir" else "gen/old.txt"
        out = os.path.join(root, rel)
        args += ["-o", [rel, out, rel + ("/" if a["out"] == "dir" and not (a["single"] and w["lang"] not in ("java", "kt")) else ""), "gen/../" + rel][s % 4]]
    if a["single"]:
        args.append("-single")
    if a["rm"]:
        args += ["-rmpath", ",".join("/".join(p) + ("/" if (s + i) % 3 == 0 else "") for i, p in enumerate(a["rm"]))]
    if a["rel"]:
        args.append("-relpath")
    if a["inner"]:
        args.append("-inner")
    args += [OTHER[i] for i in range(4) if a["other"] >> i & 1]
    if a["cli"] == "badsignext":
        args += ["-signext", "logical"]
    if a["cli"] == "badunroll":
        args += ["-unroll", ["-2", "-100"][n % 2]]
    if a["cli"] == "badflag":
        args += ["-nosuchflag"]
    main = "u%d.bb" % (len(w["units"]) - 1)
    main = ["src/" + main, os.path.join(root, "src", main), "./src/../src/" + main][s // 4 % 3]
    if a["cli"] == "missing":
        main = "src/absent.bb"
    if a["cli"] != "noinput":
        args.append(main)
    if a["cli"] == "twoinputs":
        args.append("src/u0.bb")
    return args, out


def shown(text):
    return sorted(l for l in text.split("\n") if l.strip())


def replay(run, w, n):
    root = os.path.realpath(run.path("o%d" % n, "w", "x", "y"))[:-4]      # .../oN
    cwd = os.path.join(root, "w", "x")
    files = {"src/u%d.bb" % k: unit_text(w, k, n) for k in range(len(w["units"]))}
    tool.write_files(cwd, files)
    a = w["args"]
    args, out = command(w, n, cwd)
    expect = None
    if a["out"] == "file":
        tool.write_files(cwd, {"gen/old.txt": "what was there before\n"})
    single = a["single"] and w["lang"] not in ("java", "kt")
    paths = ["/".join(p) for p in w["written"]]
    if out and a["out"] == "dir" and a["old"] == "files":
        # earlier output: some of it is replaced, the rest stays
        if not single:
            tool.write_files(out, {"keep/me.txt": "kept\n"})
        if paths and paths != [""]:
            tool.write_files(out, {p: "stale " * [5000, 1][n % 2] + "\n" for i, p in enumerate(paths) if i % 3 != n % 3 or i == 0})
        elif paths:
            tool.write_files(os.path.dirname(out), {os.path.basename(out): "stale " * 5000 + "\n"})
        elif w["status"] and not single:
            tool.write_files(out, {"a.bb.h": "stale\n", "main.bb.c": "stale\n"})
    if w["why"] == "obstructed":
        for p in w["pending"]:
            if w["pending"].index(p) == n % len(w["pending"]):
                os.makedirs(os.path.join(out, *p), exist_ok=True)
    before = tool.tree(root)
    r = tool.bubbler(run.bin, args, cwd, root)
    after = r.files
    probs = []

    def bad(x):
        probs.append(x)
    det = {"files": files, "args": args, "world": w, "stdout": r.out[:3000], "stderr": r.err[:3000]}
    changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
    exp = sorted(os.path.normpath(os.path.join(os.path.relpath(out, root), p)) if p else os.path.relpath(out, root) for p in paths) if out else []
    if r.rc is None or "goroutine " in r.err or r.rc not in (0, 1, 2) or (r.rc == 2 and a["cli"] not in ("badflag",)):
        bad("the tool crashed: exit %s: %s" % (r.rc, r.err[-300:]))
    elif w["status"] == 0 and r.rc != 0:
        bad("exit %d for a good command: %s" % (r.rc, r.err.strip()[:300]))
    elif w["status"] != 0 and r.rc == 0:
        bad("exit 0, but the run must fail: %s" % w["why"])
    elif w["why"] == "obstructed":
        if not r.err.strip():
            bad("cannot write a file, and says nothing")
    elif w["status"] != 0:
        if changed:
            bad("failed (%s), yet changed %s" % (w["why"], changed))
        if r.out.strip() and a["out"] == "none":
            bad("failed (%s), yet printed output" % w["why"])
        if not r.err.strip():
            bad("failed (%s) without a message" % w["why"])
    else:
        if changed != exp:
            bad("changed %s, expected %s" % (changed, exp))
        if w["warn"] and "no_such_option" not in r.err:
            bad("no warning about an unknown option")
        if re.search(r"\berror\b", r.err):
            bad("succeeded with an error message: %s" % r.err[:300])
        if out is None:
            if bool(r.out.strip()) != (w["printed"] > 0):
                bad("%d texts are due on standard output, which has %d bytes" % (w["printed"], len(r.out)))
        elif r.out.strip():
            bad("-o is given, yet standard output has: " + r.out[:200])
        if not probs:
            text = {k: after[k].decode() for k in changed}
            whole = r.out if out is None else "\n".join(text.values())
            for u in w["units"]:
                for t in u["types"]:
                    for name in [t["name"]] + t["inner"]:
                        if not re.search(r"\b%s\b" % name, whole):
                            bad("type %s is in no output" % name)
            for k in text:
                if "stale " in text[k] or not text[k].strip():
                    bad("%s was not written anew" % k)
                b = os.path.basename(k)
                if b.endswith((".java", ".kt")) and out and not re.search(r"\b(class|enum|interface)\s+(class\s+)?%s\b" % b.rsplit(".", 1)[0], text[k]):
                    bad("%s does not define %s" % (k, b))
            # once more: the same files, the same bytes
            if out is not None:
                if a["old"] == "files" and n % 2 == 0:     # from nothing this time
                    if os.path.isdir(out):
                        shutil.rmtree(out)
                    after = {k: v for k, v in after.items() if k != os.path.join(os.path.relpath(out, root), "keep/me.txt")}
                r2 = tool.bubbler(run.bin, args, cwd, root)
                if r2.rc != 0 or r2.files != after:
                    bad("a second run differs: exit %s, %s" % (r2.rc, sorted(k for k in set(after) | set(r2.files) if after.get(k) != r2.files.get(k))))
            else:
                # standard output carries what would have gone to the files
                o2 = os.path.join(cwd, "again")
                r2 = tool.bubbler(run.bin, ["-o", o2] + args, cwd, root)
                if r2.rc == 0:
                    t2 = "\n".join(v.decode() for k, v in r2.files.items() if k.startswith(os.path.relpath(o2, root)))
                    if shown(t2) != shown(r.out):
                        bad("standard output does not carry the lines of the files")
    shutil.rmtree(root, ignore_errors=True)
    return [(p, det) for p in probs]


def check(run):
    run.bubbler()
    k = 4000 if run.thorough else 1200
    futs = []
    for i in range(4):
        out = run.path("output", "%d.jsonl" % i)
        futs.append((out, run.pool.submit(run.tlc, "Output", None, {"OUT": out, "RATE": [100, 30, 0, 100][i]}, k, 60, run.seed * 50 + i, 1, 3000)))
    ws = []
    for out, f in futs:
        f.result()
        with open(out) as fh:
            ws += [json.loads(l) for l in fh]
    why = {}
    for w in ws:
        why[w["why"]] = why.get(w["why"], 0) + 1
    run.notes["runs"] = why
    run.log("%d runs: %s" % (len(ws), why))
    for n, res in enumerate(run.pool.map(lambda a: replay(run, a[1], a[0]), list(enumerate(ws)))):
        run.count("traces_validated_against_impl")
        for what, det in res:
            run.violation("output: " + what, det)
    run.cov["samples"] = [ws[-1]]
