"""C25: replay of spec/Names.tla: what the tool says of names, and what it makes of them."""
import json, os, re, shutil
import codec
from codec import Job
from common import CheckError, sh
from exprs import LC, LCpp, LCs, LJava, LGo, LPy, LJs
from targets import ALL

ANSI = re.compile(r"\x1b\[[0-9;]*m")
LINE = re.compile(r"^(.*?):(\d+):(\d+): (\w+ (?:error|warning)): (.*)$")
EN = "w9"       # the field of the enum: its letters are never drawn


# ---------------------------------------------------------------- every name, in every kind of definition
def define(kind, n, i):
    """-> (a definition on one line, column of the name)"""
    pre = {"struct": "struct ", "enum": "enum ", "member": "enum M%dm [8] { " % i, "field": "struct F%df { uint8 " % i,
           "method": "struct G%dg { uint8 a { " % i + ("get " if i % 2 else "set ")}[kind]
    post = {"struct": " { uint8 a; }", "enum": " [8] { K%d, }" % i, "member": ", }", "field": "; }", "method": "(uint8): value; }; }"}[kind]
    return pre + n + post, len(pre) + 1


def judge(run, kind, names, want, ident):
    """one file with a definition per name -> problems (Go warns of private names besides, and is left out)"""
    base = run.path("names", ident, "x")[:-2]
    bb = os.path.join(base, "m.bb")
    os.makedirs(base, exist_ok=True)
    cols = []
    with open(bb, "w") as f:
        f.write("package vp.m;\n")
        for i, n in enumerate(names):
            text, col = define(kind, n, i)
            cols.append(col)
            f.write(text + "\n")
    rc, so, se = sh([run.bin, "-t", ["c", "py", "java", "cs", "esm"][len(names) % 5], "-o", os.path.join(base, "out"), bb], timeout=300)
    said = {}
    probs = []
    for l in ANSI.sub("", se).split("\n"):
        m = LINE.match(l)
        if m and m.group(1).endswith("m.bb"):
            said.setdefault(int(m.group(2)), []).append((int(m.group(3)), m.group(4), m.group(5)))
    bad = any(w == "error" for w in want)
    if (rc == 0) == bad or rc not in (0, 1):
        probs.append(("exit %s with %d names to refuse" % (rc, sum(w == "error" for w in want)), ANSI.sub("", se)[:1500]))
    for i, (n, w) in enumerate(zip(names, want)):
        got = [g for g in said.get(i + 2, []) if g[1].startswith("compile")]
        text = define(kind, n, i)[0]
        if w == "ok":
            if got:
                probs.append(("the %s name %r is as recommended, but: %s" % (kind, n, got), text))
        elif w == "error":
            if not any(g[1] == "compile error" and g[0] == cols[i] for g in got):
                probs.append(("the %s name %r is not refused at column %d: %s" % (kind, n, cols[i], got), text))
        elif not any(g[1] == "compile warning" and g[0] == cols[i] and re.search(r"(?<!\w)%s(?!\w)" % w, g[2]) for g in got) or any(g[1] != "compile warning" for g in got):
            probs.append(("the %s name %r is allowed and should be %r (column %d): %s" % (kind, n, w, cols[i], got), text))
    run.count("operations_compared", len(names))
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(base, ignore_errors=True)
    return probs


def check_all(run):
    out = run.path("names", "all.jsonl")
    run.tlc("Names", None, {"MODE": "all", "OUT": out, "LEN": 7 if run.thorough else 5, "STEPS": 0}, None, 100, 1, 1, 3000, "4g")
    with open(out) as fh:
        ws = [json.loads(l) for l in fh]
    run.notes["names"] = len(ws)
    futs = []
    for kind in ("struct", "enum", "member", "field", "method"):
        for which in ("accepted", "mixed"):
            part = [w for w in ws if which == "mixed" or w["kinds"][kind] != "error"]
            size = 400 if which == "mixed" else 700
            for c in range(0, len(part), size):
                p = part[c:c + size]
                futs.append((kind, p, run.pool.submit(judge, run, kind, [w["name"] for w in p], [w["kinds"][kind] for w in p], "%s-%s-%d" % (kind, which, c))))
    for kind, p, f in futs:
        for what, text in f.result()[:3]:
            run.violation("%s\n%s" % (what, text), {"kind": kind, "problem": what, "text": text})
        run.count("traces_validated_against_impl")


# ---------------------------------------------------------------- types of drawn names
class NBehaviour:
    def __init__(self, js, ident):
        self.js, self.ident, self.log = js, ident, js["log"]
        self.name = js["sname"]
        self.schema = self
        self.nf = len(js["fields"])
        self.globals = {re.sub("_", "", x).lower() for x in [js["sname"], js["ename"]] + js["members"]}

    def text(self):
        js = self.js
        o = ["enum %s[1] {" % js["ename"]] + ["    %s," % m for m in js["members"]] + ["}", "struct %s {" % js["sname"]]
        for i, f in enumerate(js["fields"], 1):
            ms = [m["name"]["raw"] for m in js["methods"] if m["f"] == i]
            o.append("    uint8 %s%s;" % (f["raw"], "" if not ms else " { %s }" % " ".join("get %s(uint8): value; set %s(uint8): value;" % (m, m) for m in ms)))
        return "\n".join(o + ["    %s %s;" % (js["ename"], EN), "}"]) + "\n"


def hexes(b):
    return "".join("%02x" % x for x in b)


class Naming:
    """mixed into the languages of exprs.py: other names, and the encoding as the result of a step"""
    style = "snake"
    minimal = False

    def member(self, f, odd):
        return "o." + f[self.style]

    def put(self, f, odd, v):
        return "%s=%s;" % (self.member(f, odd), v)

    def steps(self, k, b):
        out = []
        js = b.js
        en = {s: (EN if s != "pascal" else "W9") for s in ("raw", "snake", "camel", "pascal")}
        self.b = b
        for i, e in enumerate(b.log):
            odd = i % 2 == 1
            if e["op"] == "raw":
                do = self.put(js["fields"][e["i"] - 1], odd, self.lit("uint8", e["v"], 0))
            elif e["op"] == "set":
                do = self.setm(js["methods"][e["i"] - 1]["name"], self.lit("uint8", e["v"], 0))
            else:
                do = self.put(en, odd, self.enum(js["members"][e["i"] - 1]))
            dump = " ".join([self.show("uint8", self.member(f, odd)) for f in js["fields"]] + [self.show_enum(self.member(en, odd))] +
                            [self.show("uint8", self.getm(m["name"])) for m in js["methods"]])
            out.append("  " + self.step(k, i, do, self.enc(), dump))
        return out


class NC(Naming, LC):
    def member(self, f, odd):
        return "%s_get_%s(&o)" % (self.b.name, f["snake"]) if odd else "o." + f["snake"]

    def put(self, f, odd, v):
        return "%s_set_%s(&o,%s);" % (self.b.name, f["snake"], v) if odd else "o.%s=%s;" % (f["snake"], v)

    def getm(self, m):
        return "%s_get_%s(&o)" % (self.b.name, m["snake"])

    def setm(self, m, v):
        return "%s_set_%s(&o,%s);" % (self.b.name, m["snake"], v)

    def enum(self, m):
        return m

    def show_enum(self, x):
        return self.show("uint8", x)

    call = "(int)%s_encode(&o,buf)"

    def enc(self):
        return '{ unsigned char buf[64]; int n=%s; printf(" "); for(int i=0;i<n;i++) printf("%%02x",buf[i]); }' % (self.call % self.b.name if "%" in self.call else self.call)


class NCpp(NC, LCpp):
    call = "(int)o.encode((void*)buf)"

    def member(self, f, odd):
        return "o.get_%s()" % f["snake"] if odd else "o." + f["snake"]

    def put(self, f, odd, v):
        return "o.set_%s(%s);" % (f["snake"], v) if odd else "o.%s=%s;" % (f["snake"], v)

    def getm(self, m):
        return "o.get_%s()" % m["snake"]

    def setm(self, m, v):
        return "o.set_%s(%s);" % (m["snake"], v)

    def enum(self, m):
        return "%s::%s::%s" % (self.ns, self.b.js["ename"], m)

    def program(self, T, behs, pkg, gen, drv):
        self.ns = T.ns(pkg)
        return LCpp.program(self, T, behs, pkg, gen, drv)


class NCs(Naming, LCs):
    style = "pascal"

    def getm(self, m):
        return "o." + m["pascal"]

    def setm(self, m, v):
        return "o.%s=%s;" % (m["pascal"], v)

    def enum(self, m):
        return "%s.%s.%s" % (self.ns, self.b.js["ename"], m)

    def show_enum(self, x):
        return "R.pi(w,(long)(%s));" % x

    def enc(self):
        return 'w.Append(" "); foreach (var x in o.Encode()) w.Append(x.ToString("x2"));'

    def program(self, T, behs, pkg, gen, drv):
        self.ns = T.ns(pkg)
        return LCs.program(self, T, behs, pkg, gen, drv)


class NJava(Naming, LJava):
    def member(self, f, odd):
        return "o.get%s()" % f["pascal"]

    def put(self, f, odd, v):
        return "o.set%s(%s);" % (f["pascal"], v)

    def getm(self, m):
        return "o.get%s()" % m["pascal"]

    def setm(self, m, v):
        return "o.set%s(%s);" % (m["pascal"], v)

    def enum(self, m):
        return "%s.%s" % (self.b.js["ename"], m)

    def show_enum(self, x):
        return "R.pi(w,%s.getNumber());" % x

    def program(self, T, behs, pkg, gen, drv):
        return "".join("import %s.%s;\n" % (pkg.replace("/", "."), b.js["ename"]) for b in behs) + LJava.program(self, T, behs, pkg, gen, drv)

    def enc(self):
        return 'w.append(" "); for (byte x : o.encode()) w.append(String.format("%02x",x&255));'


class NGo(Naming, LGo):
    def member(self, f, odd):
        return "o.Get%s()" % f["pascal"] if odd or f["pascal"][0] == "_" else "o." + f["pascal"]

    def put(self, f, odd, v):
        return "o.Set%s(%s);" % (f["pascal"], v) if odd or f["pascal"][0] == "_" else "o.%s=%s;" % (f["pascal"], v)

    def getm(self, m):
        return "o.Get%s()" % m["pascal"]

    def setm(self, m, v):
        return "o.Set%s(%s);" % (m["pascal"], v)

    def enum(self, m):
        return "m." + m

    def show_enum(self, x):
        return "pi(int64(%s));" % x

    def enc(self):
        return 'fmt.Fprintf(&w," %x",o.Encode());'


class NPy(Naming, LPy):
    def put(self, f, odd, v):
        return "%s = %s" % (self.member(f, odd), v)

    def getm(self, m):
        return "o." + m["snake"]

    def setm(self, m, v):
        return "o.%s = %s" % (m["snake"], v)

    def enum(self, m):
        return "m.%s.%s" % (self.b.js["ename"], m)

    def show_enum(self, x):
        return "pi(%s.value)" % x

    def enc(self):
        return "o.encode().hex()"


class NJs(Naming, LJs):
    style = "camel"

    def getm(self, m):
        return "o." + m["camel"]

    def setm(self, m, v):
        return "o.%s=%s;" % (m["camel"], v)

    def enum(self, m):
        return "m.%s.%s" % (self.b.js["ename"], m)

    def show_enum(self, x):
        return "pi(%s)" % x

    def enc(self):
        return "Buffer.from(o.encode()).toString('hex')"


LANGS = {"c": NC, "cpp": NCpp, "cs": NCs, "java": NJava, "go": NGo, "py": NPy, "cjs": NJs, "esm": NJs}


class NameJob(Job):
    def sources(self, T, schemas, base, gen):
        names = self.behs[0].js["package"]
        pkg = "/".join(n["raw"] for n in names)
        if self.tname == "cs":
            T.nsmap[pkg] = [n["pascal"] for n in names]
        bb = os.path.join(base, "main.bb")
        with open(bb, "w") as f:
            f.write("package %s;\n\n" % pkg.replace("/", ".") + "\n".join(b.text() for b in self.behs))
        return bb, T.out_arg(gen, pkg), [pkg] * len(schemas)

    def shown(self, b):
        return "package %s;\n" % ".".join(n["raw"] for n in b.js["package"]) + b.text()

    def emit(self, T, schemas, pkgs, gen, drv):
        L = LANGS[self.tname]()
        text = L.program(T, self.behs, pkgs[0], gen, drv)
        with open(os.path.join(gen if self.tname == "go" else drv, L.out), "w") as f:
            f.write(text)

    def replay(self, T, gen, drv, base):
        run = self.run
        rc, so, se = sh(T.run_cmd(gen, drv), env=run.env, timeout=240)
        got = so.split("\n")
        if got and got[-1] == "":
            got.pop()
        probs, idx = [], 0
        for k, b in enumerate(self.behs):
            bad = False
            for i, e in enumerate(b.log):
                st = e["st"]
                want = " ".join(["%d %d" % (k, i), hexes(st)] + ["%d" % x for x in st + [st[m["f"] - 1] for m in b.js["methods"]]])
                have = got[idx] if idx < len(got) else "the program ends (exit %s): %s" % (rc, se[:600])
                if not got:
                    return self.narrow("the generated code does not load", se[-1500:])
                if have != want and not bad:
                    bad = True
                    probs.append(("%s: behaviour %s step %d: %s %d\n    expected %s\n    got      %s\n    (behaviour, step, encoded, fields, accessors)\n%s" % (
                        self.where(), b.ident, i + 1, e["op"], e["i"], want, have[:300], b.text()),
                        {"kind": "step", "target": self.tname, "opts": self.opts, "step": i + 1, "op": e, "expected": want, "got": have, "bb": b.text(), "behaviour": b.js}))
                idx += 1
        run.count("operations_compared", idx)
        run.count("traces_validated_against_impl", len(self.behs))
        return probs


OPTS = [[], ["-single"], ["-memcpy", "-decnum"], ["-compat"]]


def check(run):
    run.bubbler()
    check_all(run)
    steps = 8
    futs = []
    for i in range(8):
        out = run.path("names", "draw%d.jsonl" % i)
        futs.append((out, run.pool.submit(run.tlc, "Names", None, {"MODE": "draw", "OUT": out, "LEN": 0, "STEPS": steps}, 120 if run.thorough else 24, 200, run.seed * 50 + i)))
    behs = []
    for out, f in futs:
        f.result()
        with open(out) as fh:
            behs += [NBehaviour(json.loads(l), "%d" % (len(behs) + j)) for j, l in enumerate(fh)]
    chunks = []     # the names of types and members are global
    for b in behs:
        for c in chunks:
            if len(c[0]) < 30 and not c[1] & b.globals:
                c[0].append(b)
                c[1].update(b.globals)
                break
        else:
            chunks.append(([b], set(b.globals)))
    if len(behs) < 100:
        raise CheckError("only %d types drawn" % len(behs))
    run.notes["types"] = len(behs)
    run.cov["samples"] = [behs[0].text(), behs[0].log[:3]]
    jobs = []
    for i, c in enumerate(chunks):
        for t in ALL:
            jobs.append(NameJob(run, t, OPTS[i % len(OPTS)], c[0], "n%d-%s" % (len(jobs), t)))
    codec.run_jobs(run, jobs)
