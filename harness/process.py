"""C16: replay of spec/Process.tla - histories of library calls in one process, each call against a process of its own."""
import hashlib, json, os, re, shutil, subprocess
import tool
from common import CheckError

CLI = {"csharp": "cs", "commonjs": "cjs", "esm": "mjs", "kotlin": "kt", "python": "py"}
FLAGS = ["-single", "-relpath", "-inner", "-minimal", "-decnum", "-memcpy", "-compat"]


def content(f, t, imports_style=0):
    """the text of file f; what it declares depends on the bits of ver"""
    v = t["ver"]
    o = ["package %s.f%d;\n" % (["top", "top.mid", "side"][f % 3], f)]
    o += ['import "%s";\n' % os.path.relpath(place(g), os.path.dirname(place(f)) or ".") for g in sorted(t["imps"])]
    if t["go"]:
        o.append('option go_package = "shared/g%d";\noption java_package = "shared.j%d";\n' % (t["go"], t["go"]))
    if t["omit"]:
        o.append("option omit_empty = true;\n")
    if t["warn"]:
        o.append("option colour = 3;\n")
    if v == 0:
        return "".join(o)
    o.append("enum E%d[%d] {\n    E%dA;\n    E%dB = %d;\n    E%dC;\n}\n" % (f, 1 + v % 2, f, f, 3 + v, f))
    o.append("struct S%d%s {\n    uint8 id = 0x%x;\n    E%d kind;\n" % (f, "" if v & 12 else "", v, f))
    if v & 1:
        o.append("    float32 real[4] {\n        get half(float64): value / 2;\n    };\n")
    if v & 2:
        o.append("    int16<5> arr[#60];\n    int8 narrow[#5];\n    void [#7];\n")
    if v & 4:
        o.append("    string name [order = \"big\"];\n" if v & 32 else "    string name;\n")
    if v & 8:
        o.append("    bytes blob;\n")
    if v & 16:
        o.append("    struct In%d[2] {\n        uint8<2> x;\n    } in;\n" % f)
    if v & 32:
        o.append("    uint32 be[3] [order = \"big\"] {\n        get twice(uint64): value * 2 + 1;\n        set twice(uint64): (value - 1) / 2;\n    };\n")
    if v & 1 and v & 2:
        o.append("    bool on[1];\n")
    for g in sorted(t["imps"]):
        o.append("    E%d e%d;\n" % (g, g) if t["uses"][str(g)] else "")
    o.append("}\n")
    if v & 5 == 5:
        o.append("struct Badly_Named%d {\n    float64 d;\n    string<2> two;\n}\n" % f if v & 32 else "struct Second%d {\n    float64 d;\n    string<2> two;\n}\n" % f)
    if t["fault"] == "type":
        o.append("struct Broken%d {\n    Missing m;\n}\n" % f)
    if t["fault"] == "layout":
        o.append("struct Broken%d {\n    uint8 x[3];\n    uint8 y[2];\n}\n" % f)
    if t["fault"] == "syntax":
        o.append("struct {\n")
    return "".join(o)


def place(f):
    return ["", "sub/", "sub/deep/", "other/"][f % 4] + "f%d.bb" % f


def texts(snap):
    """file number (1-based) -> text; an import is used only where it declares something"""
    out = {}
    for i, t in enumerate(snap):
        t = dict(t)
        t["uses"] = {str(g): snap[g - 1]["ver"] not in (0, 64) and snap[g - 1]["fault"] != "syntax" for g in t["imps"]}
        if t["fault"] != "none" and t["ver"] == 0:
            t["ver"] = 1
        out[i + 1] = content(i + 1, t)
    return out


def option(o):
    d = {f[1:].capitalize(): f in o["flags"] for f in FLAGS}
    d.update({"Unroll": o["unroll"], "Signext": o["signext"], "Rmpath": "top/mid,side" if o["rm"] else ""})
    return d


def plain(text, root):
    """the messages, without colours and without the place where they came about"""
    return "\n".join(l.rstrip() for l in tool.ANSI.sub("", text).replace(root, "<root>").replace("        ", "\t").split("\n")).strip()


def histories(run, jobs):
    futs = []
    for i, (calls, num) in enumerate(jobs):
        out = run.path("process", "%d.jsonl" % i)
        futs.append((out, run.pool.submit(run.tlc, "Process", None, {"OUT": out, "NCALLS": calls}, num, calls + 10, run.seed * 50 + i, 1, 3000)))
    hs = []
    for out, f in futs:
        f.result()
        with open(out) as fh:
            hs.append([json.loads(l) for l in fh])
    return hs


class Reference:
    """One fresh process per distinct call; each run twice, in different places and from different directories."""

    def __init__(self, run):
        self.run, self.memo = run, {}

    def key(self, *a):
        return hashlib.sha1(json.dumps(a, sort_keys=True).encode()).hexdigest()

    def get(self, key, files, main, target, opt):
        if key not in self.memo:
            self.memo[key] = self.run.pool.submit(self.both, key, files, main, target, opt)
        return self.memo[key]

    def both(self, key, files, main, target, opt):
        a = self.once(key + "/one", files, main, target, opt, 0)
        if int(key[0], 16) % 3:
            return a, []
        b = self.once(key + "/another/place further away", files, main, target, opt, 1)
        return a, [] if a == b else ["two runs differ: %s" % diff(a, b)]

    def once(self, where, files, main, target, opt, k):
        root = os.path.realpath(self.run.path("ref", where, "src", "x"))[:-2]
        tool.write_files(root, files)
        out = os.path.join(os.path.dirname(root), "out")
        args = ["-t", target, "-o", out]
        if opt:
            args += [f for f in FLAGS if opt[f[1:].capitalize()]] + ["-unroll", str(opt["Unroll"]), "-signext", opt["Signext"]]
            if opt["Rmpath"]:
                args += ["-rmpath", opt["Rmpath"]]
        single = opt and opt["Single"] and target not in ("java", "kt")
        env = dict(os.environ)
        if k:
            env.update({"LANG": "tr_TR.UTF-8", "LC_ALL": "C", "TZ": "Asia/Tokyo", "HOME": "/nonexistent", "GOMAXPROCS": "1"})
        cwd = [root, "/"][k]
        args.append([main, os.path.join(root, main)][k])
        try:
            r = subprocess.run([self.run.bin] + args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
        except subprocess.TimeoutExpired:
            r = None
        files_ = {"": open(out, "rb").read()} if single and os.path.isfile(out) else tool.tree(out)
        res = {"rc": r.returncode if r else None, "err": plain(r.stderr.decode("utf-8", "replace"), root) if r else "timeout",
               "files": {p: v.decode("utf-8", "replace") for p, v in files_.items()}}
        shutil.rmtree(os.path.dirname(root), ignore_errors=True)
        return res


def diff(a, b):
    if a["rc"] != b["rc"]:
        return "exit %s and %s" % (a["rc"], b["rc"])
    if sorted(a["files"]) != sorted(b["files"]):
        return "files %s and %s" % (sorted(a["files"]), sorted(b["files"]))
    for p in a["files"]:
        if a["files"][p] != b["files"][p]:
            for x, y in zip((a["files"][p] + "\n<end>").split("\n"), (b["files"][p] + "\n<end>").split("\n")):
                if x != y:
                    return "%s: %r and %r" % (p or "the file", x, y)
    return "messages %r and %r" % (a["err"][:500], b["err"][:500])


def replay(run, binary, group, ref, g):
    """executes the histories of a group one after another in one process"""
    feed, plans = [], []
    for n, h in enumerate(group):
        root = os.path.realpath(run.path("proc%d" % g, "h%d" % n, "src", "x"))[:-2]
        opts = [option(o) for o in h["opts"]]
        disk, snaps, calls, plan = {}, [], [], []
        for i, c in enumerate(h["log"]):
            if c["op"] == "edit":
                disk[c["f"]] = c["text"]
                # the texts of all files are written again: what a file uses depends on what it imports
                if len(disk) == 4:
                    for f, t in texts([disk[x] for x in range(1, 5)]).items():
                        calls.append({"op": "edit", "path": os.path.join(root, place(f)), "text": t})
                        plan.append(None)
            elif c["op"] == "compile":
                files = {place(f): t for f, t in texts([disk[x] for x in range(1, 5)]).items()}
                cwd = [root, os.path.join(root, "sub"), "/"][c["cwd"]]
                p = place(c["main"])
                path = [p, os.path.relpath(os.path.join(root, p), cwd), os.path.join(root, p)][c["cwd"]]
                snaps.append((files, c["main"], c["ok"]))
                calls.append({"op": "compile", "path": path, "cwd": cwd})
                plan.append(("compile", snaps[-1]))
            else:
                calls.append({"op": "generate", "h": c["h"], "o": c["o"], "target": c["target"], "out": os.path.join(os.path.dirname(root), "out%d" % i)})
                plan.append(("generate", snaps[c["h"] - 1], c["target"], opts[c["o"] - 1], calls[-1]["out"], c["ok"]))
        for c in calls:
            if c["op"] == "edit":
                os.makedirs(os.path.dirname(c["path"]), exist_ok=True)
        feed.append(json.dumps({"calls": calls, "opts": opts}))
        plans.append((root, plan))
    refs = {}
    for root, plan in plans:
        for st in plan:
            if st and st[0] == "compile":
                refs[id(st)] = ref.get(ref.key(st[1][0], st[1][1]), st[1][0], place(st[1][1]), "c", None)
            elif st and st[2] != "none":
                t = CLI.get(st[2], st[2])
                refs[id(st)] = ref.get(ref.key(st[1][0], st[1][1], t, st[3]), st[1][0], place(st[1][1]), t, st[3])
    p = subprocess.run([binary], input="\n".join(feed) + "\n", capture_output=True, text=True, timeout=600)
    lines = [json.loads(l) for l in p.stdout.split("\n") if l.strip()]
    probs = []
    if len(lines) != len(group):
        probs.append(("the process ended after %d of %d histories: %s" % (len(lines), len(group), p.stderr[-500:]), {"history": group[len(lines)]}))
    calls = 0
    for n, res in enumerate(lines):
        root, plan = plans[n]
        said = {}
        for i, (st, r) in enumerate(zip(plan, res)):
            if st is None:
                continue
            calls += 1
            det = {"history": group[n], "call": i, "files": st[1][0], "result": r}

            def bad(what):
                probs.append((what, det))
            if r.get("panic"):
                bad("call %d (%s) panics: %s" % (i, st[0], r["panic"][:200]))
                continue
            if st[0] == "generate" and st[2] == "none":
                if not r["err"]:
                    bad("call %d: an unknown target is accepted" % i)
                continue
            want, own = refs[id(st)].result()
            for x in own:
                bad("call %d: %s" % (i, x))
            if st[0] == "compile":
                if bool(r["err"]) == st[1][2]:
                    bad("call %d (compile of file %d): expected %s, got %s" % (i, st[1][1], "success" if st[1][2] else "failure", r["err"][:300]))
                # -t c adds its own warnings only after a compilation that succeeds
                got = plain("\n".join(x for x in (r["warn"], r["err"]) if x), root)
                said[id(st[1])] = r["warn"]
                if not (want["err"] == got if r["err"] else want["err"].startswith(got)):
                    bad("call %d (compile of file %d) says %r, alone it says %r" % (i, st[1][1], got[:600], want["err"][:600]))
            else:
                _, snap, target, opt, out, ok = st
                if bool(r["err"]) == ok:
                    bad("call %d (generate %s): expected %s, got %s" % (i, target, "success" if ok else "failure", r["err"][:300]))
                single = opt["Single"] and target not in ("java", "kotlin")
                files = {"": open(out, "rb").read()} if single and os.path.isfile(out) else tool.tree(out)
                got = {"rc": 1 if r["err"] else 0, "files": {p_: v.decode("utf-8", "replace") for p_, v in files.items()},
                       "err": plain("\n".join(x for x in (said.get(id(snap), ""), r["warn"], r["err"]) if x), root)}
                if got != want:
                    bad("call %d (generate %s) differs from the same call alone: %s" % (i, target, diff(got, want)))
    shutil.rmtree(run.path("proc%d" % g, "x")[:-2], ignore_errors=True)
    return probs, calls


def check(run):
    run.bubbler()
    binary = run.go_tool("proc_main")
    k = 120 if run.thorough else 14
    hs = histories(run, [(30, k), (60, k), (60, k), (100, k)])
    ref = Reference(run)
    groups = [g[i::4] for g in hs for i in range(4)]
    run.log("%d histories in %d processes" % (sum(map(len, groups)), len(groups)))
    # the pool also runs the references: only half of it may wait for them
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(3) as ex:
        for probs, calls in ex.map(lambda a: replay(run, binary, a[1], ref, a[0]), list(enumerate(groups))):
            run.count("traces_validated_against_impl", calls)
            for what, det in probs:
                run.violation("process: " + what, det)
    run.notes["histories"] = sum(map(len, groups))
    run.notes["reference_processes"] = len(ref.memo)
    run.cov["samples"] = [groups[0][0]["log"][:12]]
