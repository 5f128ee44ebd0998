"""Replays codec sessions (spec/Session.tla) in the code generated by bubbler."""
import json, os, shutil
from common import CheckError, sh
from render import Schema
from targets import TARGETS, ALL


# ------------------------------------------------------------------ behaviours
def behaviours(run, profile, n, steps, shards=8, cell0=0, cstride=1, perstr=8, seed_off=0, module="Session", env=None):
    """n behaviours of the profile, drawn by TLC in `shards` parallel runs."""
    futs = []
    shards = max(1, min(shards, n))
    per = [(n + i) // shards for i in range(shards)]
    for i in range(shards):
        out = run.path("beh", "%s-%d.jsonl" % (profile, i))
        e = {"PROFILE": profile, "OUT": out, "STEPS": steps, "CELL0": cell0 + i * cstride * 1 * perstr * per[0],
             "CSTRIDE": cstride, "PERSTR": perstr}
        e.update(env or {})
        futs.append((out, run.pool.submit(run.tlc, module, module + ".cfg", e, per[i], steps + 6, run.seed * 1000 + seed_off + i)))
    res = []
    for out, f in futs:
        f.result()
        with open(out) as fh:
            for line in fh:
                res.append(json.loads(line))
        os.unlink(out)
    run.count("behaviours", len(res))
    return res


def complaint(text):
    """The part of bubbler's output that is not a warning."""
    out, skip = [], False
    for line in text.split("\n"):
        low = line.lower()
        if "warning" in low:
            skip = True
        elif "error" in low or "panic" in low:
            skip = False
        if not skip:
            out.append(line)
    return "\n".join(out)[:3000] or text[-1500:]


class Behaviour:
    def __init__(self, js, ident, prefix):
        self.js = js
        self.ident = ident
        self.schema = Schema(js["schema"], prefix)
        self.log = js["log"]


# ------------------------------------------------------------------ operations
def hx(b):
    return "-" + bytes(b).hex() if not b else bytes(b).hex()


def op_line(s, leaves, k, e, pad=0xA7):
    t = op_text(s, leaves, k, e, pad)
    return t[0] + str(e.get("way", 0)) + t[1:]


def op_text(s, leaves, k, e, pad):
    op = e["op"]
    if op == "put":
        return "P %d %d %s" % (k, e["i"] - 1, s.tokens(e["v"], leaves)[e["i"] - 1])
    if op == "fact":
        return "F %d" % k
    if op == "fresh":       # "-": left as it is
        given = lambda p: p[-1][2]["k"] == "enum" or e.get("arrays") and p[-1][1] is not None
        return " ".join(["W %d" % k] + [t if given(p) else "-" for t, p in zip(s.tokens(e["v"], leaves), leaves)])
    if op == "eq":
        return " ".join(["Q %d %d" % (k, e["dec"])] + s.tokens(e["v"], leaves))
    if op == "new":
        return "N %d" % k
    if op == "set":
        return " ".join(["S %d" % k] + s.tokens(e["v"], leaves))
    if op == "enc":
        return "E %d" % k
    if op == "into":
        return "I %d %s %d %d" % (k, hx(e["fill"]), e["start"], e["start"] + e["n"] + e["guard"])
    if op == "size":
        return "Z %d" % k
    if op == "get":
        return "G %d" % k
    if op == "rt":
        return "R %d" % k
    if op == "mem":
        return "M %d" % k
    if op in ("dec", "decbad", "hdec", "hdecbad"):
        return "D %d %d %s" % (k, e["start"], hx([pad] * e["start"] + e["in"]))
    if op == "alias":
        return "A %d %s" % (k, hx(e["in"]))
    if op == "dsz":
        return "L %d %d %s %s" % (k, e["start"], hx([pad] * e["start"] + e["in"]), ",".join(str(a[0]) for a in e["ans"]))
    raise KeyError(op)


def valid_utf8(b):
    try:
        bytes(b).decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


HUGE = -2000000000      # the specification does not count further than this


def check_op(s, leaves, e, got, target, ctx):
    """None if `got` is what the specification says, else (expected, got)."""
    op = e["op"]
    if op in ("new", "set"):
        return None if got == "ok" else ("ok", got)
    if op == "enc":
        want = "%d %s" % (e["n"], bytes(e["out"]).hex())
        return None if got.strip() == want.strip() else (want, got)
    if op == "size":
        return None if got == str(e["n"]) else (str(e["n"]), got)
    if op == "fact":
        want = "%d %d" % (e["n"], e["dyn"])
        if target in ("cs", "cjs", "esm"):
            value = {(c["s"], c["f"] - 1): int("0" + "".join(map(str, reversed(c["v"]))), 2) for c in e["consts"]}
            want += "".join(" %x" % value[si, fi] for _, _, si, fi in s.constants())
        return None if got == want else (want, got)
    if op == "eq":
        ok = {0: ("0 0 0", "0 0 1"), 1: ("1 1 1",), 2: ("0 0 0", "0 0 1", "1 1 1")}[e["n"]]
        return None if got in ok else (ok[0] + " (equal, equal, same hash)", got)
    if op in ("get", "put", "fresh"):
        want = " ".join(s.tokens(e["v"], leaves))
        return None if got.split() == want.split() else (want, got)
    if op == "mem":
        want = " ".join("%x" % int.from_bytes(bytes(v), "little") for en in e["v"] for v in en)
        return None if got.split() == want.split() else (want, got)
    if op == "into":
        f = e["fill"]
        st, n, g = e["start"], e["n"], e["guard"]
        base = [f[i % len(f)] for i in range(st + n + g)]
        parts = got.split()
        if not parts or parts[0] != str(n) or (len(parts) < 2 and base):
            return ("%d ..." % n, got)
        try:
            buf = bytes.fromhex(parts[1]) if len(parts) > 1 else b""
        except ValueError:
            return ("a buffer", got)
        want = list(base)
        bad = len(buf) != len(base)
        for i in range(len(base)):
            j = i - st
            m = e["mask"][j] if 0 <= j < n else 0
            o = e["out"][j] if 0 <= j < n else 0
            want[i] = (base[i] & ~m) | (o & m) if 0 <= j < n else base[i]
            if not bad:
                if 0 <= j < n:
                    if (buf[i] ^ o) & m:
                        bad = True
                elif buf[i] != base[i]:
                    bad = True
        if bad:
            return ("%d %s (void bits free: mask %s)" % (n, bytes(want).hex(), bytes(e["mask"]).hex()), got)
        return None
    if op in ("dec", "alias", "rt"):
        toks = s.tokens(e["v"], leaves)
        if op == "alias" and ctx.get("strings_only"):
            g = got.split()
            ok = g and g[0] == str(e["n"]) and len(g) == len(toks) + 1 and all(
                a == b for a, b, p in zip(g[1:], toks, leaves) if p[-1][2]["k"] == "str")
            return None if ok else (" ".join([str(e["n"])] + toks) + " (strings)", got)
        want = [str(e["n"])] + toks
        return None if got.split() == want else (" ".join(want), got)
    if op == "decbad":
        return None if got == "-1" else ("-1 (%s)" % e["why"], got)
    if op in ("hdec", "hdecbad"):
        hasstr = any(p[-1][2]["k"] == "str" for p in leaves)
        raw = bytes(e["in"])
        # string content that is not UTF-8: Python refuses it
        if hasstr and target == "py" and got.startswith("X UnicodeDecodeError") and any(b >= 128 for b in raw) and (
                op == "hdecbad" or not all(valid_utf8(v) for p, v in zip(leaves, e["v"]) if p[-1][2]["k"] == "str")):
            return None
        if got.startswith("X "):
            return ("no exception", got)
        first = got.split()[0]
        if op == "hdecbad" and e["why"] == "malformed":
            return None if int(first) <= len(raw) else ("at most %d" % len(raw), got)
        if op == "hdecbad":
            return None if got == "-1" else ("-1 (%s)" % e["why"], got)
        toks = s.tokens(e["v"], leaves)
        g = got.split()
        if g[0] != str(e["n"]) or len(g) != len(toks) + 1:
            return (" ".join([str(e["n"])] + toks), got)
        for a, b, p, v in zip(g[1:], toks, leaves, e["v"]):
            if a != b and not (p[-1][2]["k"] == "str" and not valid_utf8(v)):
                return (" ".join([str(e["n"])] + toks), got)
        return None
    if op == "dsz":
        g = got.split()
        want = " ".join("%d:[%d,%d]" % tuple(a) for a in e["ans"])
        if len(g) != len(e["ans"]):
            return (want, got)
        for x, (p, lo, hi) in zip(g, e["ans"]):
            try:
                if not (lo <= int(x) or lo <= HUGE) or int(x) > hi:
                    return ("for %d bytes: %d..%d" % (p, lo, hi), x + "   of " + got)
            except ValueError:
                return (want, got)
        return None
    raise KeyError(op)


SKIP = {"decbad": lambda t, e: not t.has_length and e["why"] != "const",
        "hdec": lambda t, e: not t.has_length, "hdecbad": lambda t, e: not t.has_length,
        "eq": lambda t, e: t.name not in ("java", "cs")}


def pathname(p):
    return ".".join(x[0] + ("" if x[1] is None else "[%s]" % x[1]) for x in p)


# ------------------------------------------------------------------ jobs
class Job:
    def __init__(self, run, tname, opts, behs, ident, ctx=None, cflags=()):
        self.run, self.tname, self.opts, self.behs, self.ident = run, tname, list(opts), behs, ident
        self.ctx = ctx or {}
        self.cflags = list(cflags)

    def where(self):
        return "%s %s" % (self.tname, " ".join(self.opts))

    def execute(self):
        """-> list of problems (what, detail)"""
        run = self.run
        base = run.path("job", self.ident, "x")[:-2]
        gen, drv = os.path.join(base, "gen"), os.path.join(base, "drv")
        os.makedirs(gen), os.makedirs(drv)
        T = TARGETS[self.tname](self.opts)
        T.cflags = self.cflags
        T.rich = any(e["op"] == "put" for b in self.behs for e in b.log)
        schemas = [b.schema for b in self.behs]
        try:
            bb, out, pkgs = self.sources(T, schemas, base, gen)
            rc, so, se = sh([run.bin, "-t", T.flag] + self.opts + ["-o", out, bb], timeout=120)
            if rc != 0:
                return self.narrow("bubbler fails (exit %s) on a well-formed schema" % rc, complaint(se + so))
            self.emit(T, schemas, pkgs, gen, drv)
            for cmd in T.build_cmds(gen, drv):
                cwd = None
                if isinstance(cmd, tuple):
                    cwd, cmd = cmd[1], cmd[2]
                rc, so, se = sh(cmd, cwd=cwd, env=run.env, timeout=600)
                if rc is None:
                    raise CheckError("build timed out: %s" % self.where())
                if rc != 0:
                    return self.narrow("the generated code does not build", (so + se)[:3000])
            return self.replay(T, gen, drv, base)
        finally:
            if not os.environ.get("VERIF_KEEP"):
                shutil.rmtree(base, ignore_errors=True)

    def sources(self, T, schemas, base, gen):
        """writes the source files -> main file, what to give as -o, package of every schema"""
        bb = os.path.join(base, "m.bb")
        with open(bb, "w") as f:
            f.write("package vp.m;\n\n" + "\n".join(s.text() for s in schemas))
        return bb, T.out_arg(gen, "vp/m"), ["vp/m"] * len(schemas)

    def emit(self, T, schemas, pkgs, gen, drv):
        T.emit(schemas, pkgs, gen, drv)

    def shown(self, b):
        return b.schema.text()

    def narrow(self, what, msg):
        """The whole chunk failed: find one behaviour that fails by itself."""
        if len(self.behs) > 1:
            h = len(self.behs) // 2
            for i, part in enumerate((self.behs[:h], self.behs[h:])):
                r = type(self)(self.run, self.tname, self.opts, part, self.ident + "n%d" % i, self.ctx, self.cflags).execute()
                bad = [x for x in r if x[1].get("kind") == "build"]
                if bad:
                    return bad[:1]
        b = self.behs[0]
        bbtext = self.shown(b) if len(self.behs) == 1 else "\n".join(self.shown(x) for x in self.behs)
        return [("%s: %s\n    %s\n%s" % (self.where(), what, msg.strip().replace("\n", "\n    ")[:700], bbtext[:600]),
                 {"kind": "build", "target": self.tname, "opts": self.opts, "message": msg, "bb": bbtext, "behaviour": b.js})]

    def replay(self, T, gen, drv, base):
        run = self.run
        lines, meta = [], []
        leaves = [b.schema.leaves() for b in self.behs]
        for k, b in enumerate(self.behs):
            for i, e in enumerate(b.log):
                if e["op"] in SKIP and SKIP[e["op"]](T, e):
                    continue
                if e["op"] == "fresh" and T.name == "c":    # a struct of C is what its user makes it
                    e = dict(e, op="set")
                if e["op"] == "fresh" and T.name in ("cjs", "esm"):     # arrays start out empty and are given whole
                    e = dict(e, arrays=True)
                lines.append(op_line(b.schema, leaves[k], k, e))
                meta.append((k, i, e))
        cmdf = os.path.join(drv, "ops.txt")
        with open(cmdf, "w") as f:
            f.write("\n".join(lines) + "\n")
        env = dict(run.env)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99"
        env["UBSAN_OPTIONS"] = "halt_on_error=1"
        env["DOTNET_gcServer"] = "0"
        env["DOTNET_TieredCompilation"] = "1"
        rc, so, se = sh(T.run_cmd(gen, drv) + [cmdf], env=env, timeout=240)
        out = so.split("\n")
        if out and out[-1] == "":
            out.pop()
        probs = []
        nbad = {}
        got_n = 0
        for idx, (k, i, e) in enumerate(meta):
            b = self.behs[k]
            if idx >= len(out) or not out[idx].startswith("%d " % idx) or (idx == len(out) - 1 and idx < len(meta) - 1):
                if idx == 0 and rc not in (0, None) and rc > 0 and not out:
                    return self.narrow("the generated code does not load", se[-1500:])
                how = "hangs" if rc is None else "dies (exit %s)" % rc
                probs.append(self.problem(b, i, "an answer", "the program %s: %s" % (how, se[:600])))
                break
            got_n += 1
            got = out[idx].split(" ", 1)[1] if " " in out[idx] else ""
            r = check_op(b.schema, leaves[k], e, got.rstrip(), self.tname, self.ctx)
            if r is not None:
                nbad[k] = nbad.get(k, 0) + 1
                if nbad[k] == 1:
                    probs.append(self.problem(b, i, r[0], r[1]))
        run.count("operations_compared", got_n)
        run.count("traces_validated_against_impl", len(self.behs))
        return probs

    def problem(self, b, i, want, got):
        e = b.log[i]
        bbtext = self.shown(b)
        w, g = str(want).split(), str(got).split()
        if len(w) == len(g) > 1 and e["op"] in ("dec", "hdec", "alias", "rt"):
            for x, y, p in zip(w[1:], g[1:], b.schema.leaves()):
                if x != y:
                    want = "%s   [first difference: %s is %s, not %s]" % (want[:300], pathname(p), y[:60], x[:60])
                    break
        return ("%s: behaviour %s step %d (%s)\n    expected %s\n    got      %s\n%s" %
                (self.where(), b.ident, i + 1, e["op"], str(want)[:600], str(got)[:300], bbtext[:900]),
                {"kind": "step", "target": self.tname, "opts": self.opts, "step": i + 1, "op": e, "expected": want, "got": got,
                 "bb": bbtext, "behaviour": b.js})


def replay_all(run, groups, targets=ALL, optsets=((),), chunk=24, ctx=None, cflags=None):
    """groups: lists of behaviour JSONs. optsets: option lists, or {target: option lists}.
    Returns the problems found."""
    jobs = []
    n = 0
    for gi, js in enumerate(groups):
        behs = [Behaviour(j, "%d.%d" % (gi, i), "G%dB%d" % (gi, i)) for i, j in enumerate(js)]
        for c in range(0, len(behs), chunk):
            part = behs[c:c + chunk]
            for t in targets:
                osets = optsets.get(t, ((),)) if isinstance(optsets, dict) else optsets
                for o in osets:
                    jobs.append(Job(run, t, o, part, "%d-%s" % (n, t), ctx, (cflags or {}).get(t, ())))
                    n += 1
    return run_jobs(run, jobs)


class SplitJob(Job):
    """The schemas of the behaviours, each spread over several files as the specification drew it."""

    def files(self, k, b):
        """-> {file number: (path, package, [option lines], text of the definitions)} of behaviour k"""
        sp, res = b.js["split"], {}
        for f in range(1, sp["n"] + 1):
            look = sp["look"][f - 1]
            pk = [["vp", "b%d" % k, "f%d" % f], ["vp", "b%d" % k, "sub", "f%d" % f], ["vp", "b%d" % k, "d%d" % f, "common"],
                  ["vp", "b%d" % k] if f == 1 else ["vp", "x%d" % f, "b%d" % k]][look % 4]
            path = ["", "sub/", "sub/deep/", "other/"][look // 4 % 4] + "b%df%d.bb" % (k, f)
            text = b.schema.defs_of(sp, f)
            opts = {}
            if look // 16 % 3 == 0:
                opts["go_package"] = ["vp", "gp%d" % k, ["g%d" % f, "dot.ted", "common"][look // 48 % 3]] + (["h%d" % f] if look // 48 % 3 else [])
                opts["java_package"] = ["vp", "jp%d" % k, "j%d" % f]
            if look // 16 % 3 == 1:
                opts["cpp_namespace"] = ["cn", "k%d" % k, "n%d" % (f if look // 48 % 2 else 0)]
                opts["csharp_namespace"] = ["Cn", "K%d" % k, "N%d" % (f if look // 48 % 2 else 0)]
            res[f] = (path, pk, opts, not text and look // 16 % 2 == 0, text)
        return res

    def sources(self, T, schemas, base, gen):
        src = os.path.join(base, "src")
        roots, pkgs = [], []
        for k, b in enumerate(self.behs):
            sp = b.js["split"]
            fs = self.files(k, b)
            eff = {}
            for f, (path, pk, opts, omit, text) in fs.items():
                o = ["package %s;\n" % ".".join(pk)]
                imps = sorted(sp["imps"][f - 1], reverse=sp["look"][f - 1] % 2 == 1)
                o += ['import "%s";\n' % os.path.relpath(fs[g][0], os.path.dirname(path) or ".") for g in imps]
                sep = {"go_package": "/", "java_package": ".", "cpp_namespace": "::", "csharp_namespace": "."}
                o += ['option %s = "%s";\n' % (n, sep[n].join(v)) for n, v in opts.items()]
                if omit:
                    o.append("option omit_empty = true;\n")
                p = os.path.join(src, path)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as fh:
                    fh.write("".join(o) + text)
                eff[f] = "/".join(opts.get({"go": "go_package", "java": "java_package"}.get(T.name)) or pk)
                ns = opts.get({"cpp": "cpp_namespace", "cs": "csharp_namespace"}.get(T.name))
                if ns:
                    T.nsmap[eff[f]] = ns
            s = b.schema
            home = lambda i: fs_home(b, sp, i)
            s.enum_pkg = {i: eff[h] for i, h in enumerate(sp["enums"], 1)}
            s.struct_pkg = {i: eff[home(i)] for i in range(1, len(sp["structs"]) + 1)}
            s.used_enum_pkgs = sorted({s.enum_pkg[p[-1][2]["ref"]] for p in s.leaves() if p[-1][2]["k"] == "enum"})
            pkgs.append(s.struct_pkg[s.root])
            roots += [fs[home(s.root)][0]] + [fs[f][0] for f in fs if f != home(s.root)]
        with open(os.path.join(src, "m.bb"), "w") as fh:
            fh.write("package vp.m;\n" + "".join('import "%s";\n' % r for r in roots) + ("" if "-memcpy" in self.opts else "option omit_empty = true;\n"))
        if "-rmpath" in self.opts:
            out = os.path.join(gen, "vp")
            T.main = "vp/m"
        else:
            out = T.out_arg(gen, "vp/m")
        return os.path.join(src, "m.bb"), out, pkgs

    def shown(self, b):
        out = []
        for f, (path, pk, opts, omit, text) in self.files(0, b).items():
            out.append("-- %s: package %s, imports %s, %s%s\n%s" % (path, ".".join(pk), b.js["split"]["imps"][f - 1], opts, " omit_empty" if omit else "", text))
        return "".join(out)


def fs_home(b, sp, i):
    """the file in which struct i is declared; one declared in place lives with its user"""
    for (si, fi), ref in b.schema.inline_at.items():
        if ref == i:
            return fs_home(b, sp, si)
    return sp["structs"][i - 1]


def replay_split(run, groups, targets=ALL, chunk=12):
    """groups: (behaviour JSONs, option list)"""
    jobs = []
    for gi, (js, o) in enumerate(groups):
        for c in range(0, len(js), chunk):
            for t in targets:
                if not (t == "go" and "-relpath" in o):
                    # not shared: a job notes in the schemas what its target calls the packages
                    behs = [Behaviour(j, "%d.%d" % (gi, c + i), "G%dB%d" % (gi, c + i)) for i, j in enumerate(js[c:c + chunk])]
                    jobs.append(SplitJob(run, t, o, behs, "s%d-%s" % (len(jobs), t)))
    return run_jobs(run, jobs)


def replay_pairs(run, pairs, targets=ALL, chunk=24):
    """pairs: (behaviour JSONs, option list)"""
    jobs = []
    for gi, (js, o) in enumerate(pairs):
        behs = [Behaviour(j, "%d.%d" % (gi, i), "G%dB%d" % (gi, i)) for i, j in enumerate(js)]
        for c in range(0, len(behs), chunk):
            for t in targets:
                jobs.append(Job(run, t, o, behs[c:c + chunk], "p%d-%s" % (len(jobs), t)))
    return run_jobs(run, jobs)


def run_jobs(run, jobs):
    # slow builds first
    order = {"cpp": 0, "java": 1, "cs": 2, "c": 3, "go": 4}
    jobs.sort(key=lambda j: order.get(j.tname, 9))
    probs = []
    for f in [run.pool.submit(j.execute) for j in jobs]:
        probs += f.result()
    run.count("generated_programs", len(jobs))
    for what, detail in probs:
        run.violation(what, detail)
    return probs
