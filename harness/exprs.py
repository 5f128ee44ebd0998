"""Replays histories of custom accessors (spec/Exprs.tla) in the code bubbler generates.

The driver of a target is straight-line code: one function per behaviour, one
statement per step, each printing "<behaviour> <step> <result> <pre> <mid> <post>".
"""
import os, struct
from fractions import Fraction
from common import CheckError, sh
import codec
from codec import Job
from targets import TARGETS, ALL, pascal, camel

NAMES = ["acc1", "m_2", "the_third", "raw4x", "v5", "last_one_6"]
FIELDS = ["pre", "mid_field", "post"]


def number(n, e):
    return Fraction(n) * Fraction(2) ** e


def decimal(f):
    """an exact decimal with a point"""
    s = "-" if f < 0 else ""
    f = abs(f)
    k = 0
    while f.denominator != 1:
        f, k = f * 10, k + 1
    d = str(f.numerator).rjust(k + 1, "0")
    return s + (d[:-k] + "." + d[-k:] if k else d + ".0"), k, s + str(f.numerator)


def num_text(tok):
    form, kind, n, e = tok[1:].split(",")
    form, n, e = int(form), int(n), int(e)
    if kind == "b":
        return "true" if n else "false"
    if kind == "i":
        s, a = "-" if n < 0 else "", abs(n)
        return s + (hex(a) if form == 4 else "0" + oct(a)[2:] if form == 5 and a else str(a))
    text, k, digits = decimal(number(n, e))
    if form == 4:
        return "%se-%d" % (digits, k)
    if form == 5 and text.endswith(".0"):
        return text[:-1]
    return text


def expr_text(toks, tight):
    out = ""
    for t in toks:
        x = num_text(t) if t[0] == "#" else t
        if out and (not tight or (out[-1] in "+-*/%<>=!&|^?:~" and x[0] in "+-*/%<>=!&|^?:~") or (out[-1].isalnum() and x[0].isalnum())):
            out += " "
        out += x
    return out


class Acc:
    def __init__(self, js, i, tight):
        self.kind, self.mt, self.name = js["kind"], js["mt"], NAMES[i]
        self.get = expr_text(js["gt"], tight)
        self.set = expr_text(js["st"], tight)

    def lines(self):
        o = []
        if self.kind != "set":
            o.append("get %s(%s): %s;" % (self.name, self.mt, self.get))
        if self.kind != "get":
            o.append("set %s(%s): %s;" % (self.name, self.mt, self.set))
        return o


class EBehaviour:
    def __init__(self, js, ident, prefix):
        self.js, self.ident, self.log, self.ft = js, ident, js["log"], js["ft"]
        self.name = "T" + prefix
        self.accs = [Acc(a, i, js["look"] % 3 == 0) for i, a in enumerate(js["accs"])]
        self.embed = js["look"] // 3 % 3 == 0
        self.schema = self

    def text(self):
        ls = [x for a in self.accs for x in a.lines()]
        if self.js["look"] // 9 % 2:
            ls.reverse()
        big = ' [order = "big"]' if self.js["look"] // 18 % 3 == 0 else ""
        body = "    %s pre;\n    %s mid_field%s {\n        %s\n    };\n    %s post;\n" % (self.ft[0], self.ft[1], big, "\n        ".join(ls), self.ft[2])
        if self.embed:
            return "struct %sIn {\n%s}\nstruct %s { uint8 tag; %sIn; }\n" % (self.name, body, self.name, self.name)
        return "struct %s {\n%s}\n" % (self.name, body)


def bits64(f):
    return "%x" % struct.unpack("<Q", struct.pack("<d", float(f)))[0]


def token(js, t, n, e):
    """how a driver shows the number"""
    if t in ("float32", "float64"):
        return bits64(number(n, e))
    return "%d" % n + ("n" if js and t in ("int64", "uint64") else "")


def is_float(t):
    return t.startswith("float")


# ---------------------------------------------------------------- statements of every language
class Lang:
    semi = ";"

    def lit(self, t, n, e):
        if t == "bool":
            return "true" if n else "false"
        if is_float(t):
            return self.flit(t, decimal(number(n, e))[0])
        return self.ilit(t, n)

    def ilit(self, t, n):
        return "%d" % n

    def flit(self, t, s):
        return s


class LC(Lang):
    T = {"bool": "bool", "float32": "float", "float64": "double"}

    def ctype(self, t):
        return self.T.get(t) or t + "_t"

    def ilit(self, t, n):
        return "(%s)%d" % (self.ctype(t), n)

    def flit(self, t, s):
        return "(%s)%s" % (self.ctype(t), s)

    def show(self, t, x):
        return "pd(%s);" % x if is_float(t) else "pi((long long)(%s));" % x

    def raw(self, b, f):
        return "o." + FIELDS[f]

    def getc(self, b, a):
        return "%s_get_%s(&o)" % (b.name, a.name)

    def setc(self, b, a, v):
        return "%s_set_%s(&o,%s);" % (b.name, a.name, v)

    def rawset(self, b, f, v):
        return "o.%s=%s;" % (FIELDS[f], v)

    RT = r'''
#include <stdio.h>
#include <string.h>
#include <stdint.h>
static void pi(long long v){ printf(" %lld",v); }
static void pd(double f){ uint64_t x; if(f==0) f=0; f+=0.0; memcpy(&x,&f,8); printf(" %llx",(unsigned long long)x); }
'''
    out = "driver.c"

    def program(self, T, behs, pkg, gen, drv):
        o = ['#include "%s.bb.h"' % T.unit(pkg), self.RT]
        for k, b in enumerate(behs):
            o.append("static void f%d(void){ struct %s o; memset(&o,0,sizeof o);" % (k, b.name))
            o += self.steps(k, b)
            o.append("}")
        o.append("int main(void){ setvbuf(stdout,0,_IOLBF,0); %s return 0; }" % " ".join("f%d();" % k for k in range(len(behs))))
        return "\n".join(o)

    def step(self, k, i, do, res, dump):
        return '%s printf("%d %d"); %s %s printf("\\n");' % (do, k, i, res or 'printf(" -");', dump)

    def skips(self, e):
        return False

    def steps(self, k, b):
        out = []
        dump = " ".join(self.show(b.ft[f], self.raw(b, f)) for f in range(3))
        for i, e in enumerate(b.log):
            do, res = "", ""
            if e["op"] == "raw":
                do = self.rawset(b, e["i"] - 1, self.lit(b.ft[e["i"] - 1], e["an"], e["ae"]))
            elif e["op"] == "set":
                a = b.accs[e["i"] - 1]
                if self.skips(e):
                    do = self.rawset(b, 1, self.lit(b.ft[1], e["rn"], e["re"]))
                else:
                    do = self.setc(b, a, self.lit(a.mt, e["an"], e["ae"]))
            elif not self.skips(e):
                a = b.accs[e["i"] - 1]
                res = self.show(a.mt, self.getc(b, a))
            out.append("  " + self.step(k, i, do, res, dump))
        return out


class LCpp(LC):
    out = "driver.cpp"

    def getc(self, b, a):
        return "o.get_%s()" % a.name

    def setc(self, b, a, v):
        return "o.set_%s(%s);" % (a.name, v)

    def program(self, T, behs, pkg, gen, drv):
        o = ['#include "%s.bb.hpp"' % T.unit(pkg), self.RT]
        for k, b in enumerate(behs):
            o.append("static void f%d(void){ %s::%s o{};" % (k, T.ns(pkg), b.name))
            o += self.steps(k, b)
            o.append("}")
        o.append("int main(void){ setvbuf(stdout,0,_IOLBF,0); %s return 0; }" % " ".join("f%d();" % k for k in range(len(behs))))
        return "\n".join(o)


class LCs(LC):
    out = "Driver.cs"
    T = {"bool": "bool", "float32": "float", "float64": "double", "int8": "sbyte", "uint8": "byte", "int16": "short", "uint16": "ushort",
         "int32": "int", "uint32": "uint", "int64": "long", "uint64": "ulong"}

    def ilit(self, t, n):
        return "(%s)(%d)" % (self.T[t], n)

    def flit(self, t, s):
        return s + ("f" if t == "float32" else "")

    def show(self, t, x):
        return "R.pd(w,%s);" % x if is_float(t) else "R.pb(w,%s);" % x if t == "bool" else "R.pi(w,(long)(%s));" % x

    def raw(self, b, f):
        return "o." + pascal(FIELDS[f]) if not self.minimal else '((%s)R.get(o,"%s"))' % (self.T[b.ft[f]], camel(FIELDS[f]))

    def rawset(self, b, f, v):
        return "o.%s=%s;" % (pascal(FIELDS[f]), v) if not self.minimal else 'R.set(o,"%s",%s);' % (camel(FIELDS[f]), v)

    def getc(self, b, a):
        return "o." + pascal(a.name)

    def setc(self, b, a, v):
        return "o.%s=%s;" % (pascal(a.name), v)

    def step(self, k, i, do, res, dump):
        return 'w.Clear(); try { %s w.Append("%d %d"); %s %s } catch (System.Exception e) { w.Append(" X "+e.Message); } System.Console.Out.Write(w.ToString()+"\\n");' % (
            do, k, i, res or 'w.Append(" -");', dump)

    def program(self, T, behs, pkg, gen, drv):
        o = ["using System; using System.Text; using System.Reflection;",
             'static class R { const BindingFlags F=BindingFlags.Instance|BindingFlags.Public|BindingFlags.NonPublic; '
             'public static object get(object o,string n){ return o.GetType().GetField(n,F).GetValue(o); } '
             'public static void set(object o,string n,object v){ o.GetType().GetField(n,F).SetValue(o,v); } '
             'public static void pi(StringBuilder w,long v){ w.Append(" "+v); } public static void pb(StringBuilder w,bool v){ w.Append(v?" 1":" 0"); } '
             'public static void pd(StringBuilder w,double v){ if(v==0) v=0.0; w.Append(" "+BitConverter.DoubleToInt64Bits(v+0.0).ToString("x")); } }', "static class Driver {"]
        for k, b in enumerate(behs):
            o.append("static void f%d(){ var w=new StringBuilder(); var o=new %s.%s();" % (k, T.ns(pkg), b.name))
            o += self.steps(k, b)
            o.append("}")
        o.append("static void Main(string[] a){ %s System.Console.Out.Flush(); } }" % " ".join("f%d();" % k for k in range(len(behs))))
        open(os.path.join(drv, "driver.runtimeconfig.json"), "w").write(
            '{"runtimeOptions":{"tfm":"net8.0","framework":{"name":"Microsoft.NETCore.App","version":"8.0.0"},"configProperties":{"System.Globalization.Invariant":true,"System.Runtime.TieredPGO":false}}}')
        return "\n".join(o)


class LJava(LC):
    out = "Driver.java"
    T = {"bool": "boolean", "float32": "float", "float64": "double", "int8": "byte", "uint8": "byte", "int16": "short", "uint16": "short",
         "int32": "int", "uint32": "int", "int64": "long", "uint64": "long"}

    def skips(self, e):
        return not e["j"]

    def ilit(self, t, n):
        return "(%s)%s%d" % (self.T[t], "", n) if n >= 0 else "(%s)(%d)" % (self.T[t], n)

    def flit(self, t, s):
        return s + ("f" if t == "float32" else "")

    def show(self, t, x):
        if is_float(t):
            return "R.pd(w,%s);" % x
        if t == "bool":
            return "R.pb(w,%s);" % x
        return "R.pi(w,%s%s);" % (x, {"uint8": "&0xffL", "uint16": "&0xffffL", "uint32": "&0xffffffffL"}.get(t, ""))

    def raw(self, b, f):
        return "o.get%s()" % pascal(FIELDS[f]) if not self.minimal else '((%s)R.get(o,"%s"))' % (self.T[b.ft[f]], camel(FIELDS[f]))

    def rawset(self, b, f, v):
        return "o.set%s(%s);" % (pascal(FIELDS[f]), v) if not self.minimal else 'R.set(o,"%s",%s);' % (camel(FIELDS[f]), v)

    def getc(self, b, a):
        return "o.get%s()" % pascal(a.name)

    def setc(self, b, a, v):
        return "o.set%s(%s);" % (pascal(a.name), v)

    def step(self, k, i, do, res, dump):
        return 'w.setLength(0); try { %s w.append("%d %d"); %s %s } catch (Exception e) { w.append(" X "+e); } System.out.println(w);' % (
            do, k, i, res or 'w.append(" -");', dump)

    def program(self, T, behs, pkg, gen, drv):
        o = ['final class R { static java.lang.reflect.Field f(Object o,String n) throws Exception { var f=o.getClass().getDeclaredField(n); f.setAccessible(true); return f; } '
             'static Object get(Object o,String n) throws Exception { return f(o,n).get(o); } static void set(Object o,String n,Object v) throws Exception { f(o,n).set(o,v); } '
             'static void pi(StringBuilder w,long v){ w.append(" "+v); } static void pb(StringBuilder w,boolean v){ w.append(v?" 1":" 0"); } '
             'static void pd(StringBuilder w,double v){ w.append(" "+Long.toHexString(Double.doubleToRawLongBits(v+0.0))); } }']
        for k, b in enumerate(behs):
            o.append("final class F%d { static void f(){ StringBuilder w=new StringBuilder(); var o=new %s.%s();" % (k, pkg.replace("/", "."), b.name))
            o += self.steps(k, b)
            o.append("} }")
        o.append("public class Driver { public static void main(String[] a){ %s } }" % " ".join("F%d.f();" % k for k in range(len(behs))))
        return "\n".join(o)


class LGo(LC):
    out = "zz_driver.go"

    def ilit(self, t, n):
        return "%s(%d)" % (t, n)

    def flit(self, t, s):
        return "%s(%s)" % (t, s)

    def show(self, t, x):
        return "pd(float64(%s));" % x if is_float(t) else "pb(%s);" % x if t == "bool" else "pi(int64(%s));" % x

    def raw(self, b, f):
        return "o." + pascal(FIELDS[f])

    def rawset(self, b, f, v):
        return "o.%s=%s;" % (pascal(FIELDS[f]), v)

    def getc(self, b, a):
        return "o.Get%s()" % pascal(a.name)

    def setc(self, b, a, v):
        return "o.Set%s(%s);" % (pascal(a.name), v)

    def step(self, k, i, do, res, dump):
        return 'try(func(){ %s w.WriteString("%d %d"); %s %s })' % (do, k, i, res or 'w.WriteString(" -");', dump)

    def program(self, T, behs, pkg, gen, drv):
        o = ['package main\nimport (\n"fmt"\n"math"\n"os"\n"strings"\nm "vpgen/%s"\n)' % T.unit(pkg),
             'var w strings.Builder\nfunc pi(v int64){ fmt.Fprintf(&w," %d",v) }\nfunc pb(v bool){ if v { w.WriteString(" 1") } else { w.WriteString(" 0") } }\n'
             'func pd(v float64){ if v==0 { v=0 }; fmt.Fprintf(&w," %x",math.Float64bits(v+0.0)) }\n'
             'func try(f func()){ w.Reset(); defer func(){ if e:=recover(); e!=nil { fmt.Fprintf(&w," X %v",e) }; os.Stdout.WriteString(w.String()+"\\n") }(); f() }']
        for k, b in enumerate(behs):
            o.append("func f%d(){ o:=&m.%s{}" % (k, b.name))
            o += self.steps(k, b)
            o.append("}")
        o.append("func main(){ %s }" % "; ".join("f%d()" % k for k in range(len(behs))))
        open(os.path.join(gen, "go.mod"), "w").write("module vpgen\n\ngo 1.23\n")
        self.out_dir = gen
        return "\n".join(o)


class LPy(LC):
    out = "driver.py"

    def lit(self, t, n, e):
        return ("True" if n else "False") if t == "bool" else Lang.lit(self, t, n, e)

    def ilit(self, t, n):
        return "%d" % n

    def flit(self, t, s):
        return s

    def show(self, t, x):
        return "%s(%s)" % ("pd" if is_float(t) else "pb" if t == "bool" else "pi", x)

    def getc(self, b, a):
        return "o." + a.name

    def setc(self, b, a, v):
        return "o.%s = %s" % (a.name, v)

    def raw(self, b, f):
        return "o." + ("_" if self.minimal else "") + FIELDS[f]

    def rawset(self, b, f, v):
        return "%s = %s" % (self.raw(b, f), v)

    def step(self, k, i, do, res, dump):
        return '''try:
    %s
    r = ["%d %d", %s, %s]
  except Exception as e:
    r = ["%d %d X", repr(e)]
  print(*r, flush=True)''' % (do or "pass", k, i, res or '"-"', dump.replace(") p", "), p"), k, i)

    def program(self, T, behs, pkg, gen, drv):
        o = ["import sys, struct", "sys.path.insert(0, %r)" % gen,
             "import %s as m" % (T.unit(pkg) + "_bb").replace("/", "."),
             '''def pi(v): return "%d" % v if type(v) is int else "!" + repr(v)
def pb(v): return "1" if v is True else "0" if v is False else "!" + repr(v)
def pd(v): return "%x" % struct.unpack("<Q", struct.pack("<d", v + 0.0 if v else 0.0))[0] if type(v) is float else "!" + repr(v)''']
        for k, b in enumerate(behs):
            o.append("def f%d():\n  o = m.%s()" % (k, b.name))
            o += self.steps(k, b)
            o.append("f%d()" % k)
        return "\n".join(o)


class LJs(LC):
    def ilit(self, t, n):
        return "%d%s" % (n, "n" if t in ("int64", "uint64") else "")

    def flit(self, t, s):
        return s

    def show(self, t, x):
        return "%s(%s)" % ("pd" if is_float(t) else "pb" if t == "bool" else "pl" if t in ("int64", "uint64") else "pi", x)

    def raw(self, b, f):
        return "o." + camel(FIELDS[f])

    def rawset(self, b, f, v):
        return "o.%s=%s;" % (camel(FIELDS[f]), v)

    def getc(self, b, a):
        return "o." + camel(a.name)

    def setc(self, b, a, v):
        return "o.%s=%s;" % (camel(a.name), v)

    def step(self, k, i, do, res, dump):
        return 'try { %s r=["%d %d",%s,%s]; } catch(e) { r=["%d %d X",String(e)]; } fs.writeSync(1,r.join(" ")+"\\n");' % (
            do, k, i, res or '"-"', dump.replace(") p", "),p"), k, i)

    def program(self, T, behs, pkg, gen, drv):
        f = os.path.join(gen, T.unit(pkg) + ".bb.js")
        if T.esm:
            o = ["import fs from 'fs';", "import _m from %r; const m=_m%s;" % (f, "." + pkg.split("/")[-1] if T.single else "")]
        else:
            o = ["const fs=require('fs');", "const m=require(%r)%s;" % (f, "".join("." + x for x in pkg.split("/")))]
        o.append('''let r; const fb=new DataView(new ArrayBuffer(8));
const bad=(v)=>'!'+typeof v+String(v);
const pi=(v)=>typeof v==='number'&&Number.isInteger(v)?String(v):bad(v);
const pl=(v)=>typeof v==='bigint'?v+'n':bad(v);
const pb=(v)=>v===true?'1':v===false?'0':bad(v);
const pd=(v)=>{ if(typeof v!=='number') return bad(v); fb.setFloat64(0,v===0?0:v); return fb.getBigUint64(0).toString(16); };''')
        for k, b in enumerate(behs):
            o.append("function f%d(){ const o=m.%s.create();" % (k, b.name))
            o += self.steps(k, b)
            o.append("}")
            o.append("f%d();" % k)
        open(os.path.join(gen, "package.json"), "w").write('{"type":"%s"}' % ("module" if T.esm else "commonjs"))
        self.out = "driver.mjs" if T.esm else "driver.cjs"
        return "\n".join(o)


LANGS = {"c": LC, "cpp": LCpp, "cs": LCs, "java": LJava, "go": LGo, "py": LPy, "cjs": LJs, "esm": LJs}


class ExprJob(Job):
    def emit(self, T, schemas, pkgs, gen, drv):
        L = self.lang = LANGS[self.tname]()
        L.minimal = T.minimal
        text = L.program(T, self.behs, pkgs[0], gen, drv)
        with open(os.path.join(gen if self.tname == "go" else drv, L.out), "w") as f:
            f.write(text)

    def replay(self, T, gen, drv, base):
        run = self.run
        rc, so, se = sh(T.run_cmd(gen, drv), env=run.env, timeout=240)
        got = so.split("\n")
        if got and got[-1] == "":
            got.pop()
        js = self.tname in ("cjs", "esm")
        probs, idx, bad = [], 0, set()
        for k, b in enumerate(self.behs):
            for i, e in enumerate(b.log):
                if e["op"] == "get" and not self.lang.skips(e):
                    res = token(js, b.accs[e["i"] - 1].mt, e["rn"], e["re"])
                else:
                    res = "-"
                want = " ".join(["%d %d" % (k, i), res] + [token(js, b.ft[f], v["n"], v["e"]) for f, v in enumerate(e["st"])])
                if idx >= len(got):
                    if not got:
                        return self.narrow("the generated code does not load", se[-1500:])
                    probs.append(self.wrong(b, i, want, "the program %s: %s" % ("hangs" if rc is None else "dies (exit %s)" % rc, se[:600])))
                    return probs
                if got[idx] != want and k not in bad:
                    bad.add(k)
                    probs.append(self.wrong(b, i, want, got[idx]))
                idx += 1
        run.count("operations_compared", idx)
        run.count("traces_validated_against_impl", len(self.behs))
        return probs

    def wrong(self, b, i, want, got):
        e = b.log[i]
        a = b.accs[e["i"] - 1] if e["op"] != "raw" else None
        what = {"raw": lambda: "write %s" % FIELDS[e["i"] - 1], "get": lambda: "get %s(%s): %s of a %s %s" % (a.name, a.mt, a.get, b.ft[1], number(b.log[i - 1]["st"][1]["n"], b.log[i - 1]["st"][1]["e"])),
                "set": lambda: "set %s(%s): %s of %s into a %s" % (a.name, a.mt, a.set, number(e["an"], e["ae"]), b.ft[1])}[e["op"]]()
        return ("%s: behaviour %s step %d: %s\n    expected %s\n    got      %s\n    (behaviour, step, result, the three fields)\n%s" % (self.where(), b.ident, i + 1, what, want, got[:300], b.text()[:900]),
                {"kind": "step", "target": self.tname, "opts": self.opts, "step": i + 1, "op": e, "expected": want, "got": got, "bb": b.text(), "behaviour": b.js})


OPTS = [[], ["-minimal"], ["-decnum"], ["-memcpy"], ["-compat"], ["-single"]]


def check(run, n, steps, off, optsets=OPTS, targets=ALL, chunk=16):
    js = codec.behaviours(run, "exprs", n, steps, seed_off=off, module="Exprs")
    jobs = []
    behs = [EBehaviour(j, str(i), "B%d" % i) for i, j in enumerate(js)]
    if behs and not run.cov["samples"]:
        run.cov["samples"] = [behs[0].text(), behs[0].log[:4]]
    for c in range(0, len(behs), chunk):
        for t in targets:
            o = optsets[(c // chunk) % len(optsets)]
            jobs.append(ExprJob(run, t, o, behs[c:c + chunk], "e%d-%s" % (len(jobs), t)))
    return codec.run_jobs(run, jobs)
