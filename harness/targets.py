"""Drivers for the eight executable targets.

A driver is generated for a list of schemas that live in one generated package
(or several).  It reads operations, one per line, and prints one result line per
operation:

  N k                     new object                      -> ok
  S k tok...              set all value leaves            -> ok
  E k                     encode                          -> n hex
  I k fill start total    encode into a used buffer       -> n hex(buffer)
  Z k                     encode_size                     -> n
  D k start hex           decode into the object          -> n tok... | -1
  L k start hex p,p,...   decode_size of the prefixes     -> n n ...
  G k                     dump the object                 -> tok...
  A k hex                 decode, scribble input, dump    -> n tok... | -1
  M k                     numbers of all enum members     -> n...
  R k                     encode, decode into a new object -> n tok... | -1
  P k i tok               set leaf i, dump the object     -> tok...
  F k                     the struct's descriptors        -> size dynamic
  W k tok...              new object, set the leaves whose token is not "-", dump it -> tok...
  Q k dec tok...          compare with another object     -> equal equal samehash

The letter of an operation is followed by a digit, its "way": which of the
equivalent forms of the operation to use.

A result line is "<line number> <result>", or "<line number> X <exception>".
"""
import os, re

UW = {8: "8", 16: "16", 32: "32", 64: "64"}


def words(name):
    out = []
    for part in name.split("_"):
        if part:
            out.append(part)
    return out


def pascal(name):
    return "".join(w[0].upper() + w[1:] for w in words(name))


def camel(name):
    p = pascal(name)
    return p[0].lower() + p[1:]


class Target:
    name = ""
    flag = ""
    compiled = True
    has_length = True      # decode() knows the input length

    def __init__(self, opts=()):
        self.opts = list(opts)
        self.minimal = "-minimal" in self.opts
        self.memcpy = "-memcpy" in self.opts
        self.inner = "-inner" in self.opts
        self.compat = "-compat" in self.opts
        self.single = "-single" in self.opts
        self.main = None               # with -single: the package whose file holds everything
        self.cflags = []
        self.rich = False              # emit the operations on single fields through accessors
        self.nsmap = {}                # namespaces set by options: package -> components

    def members(self, s):
        """(enum, member name) of every member of every enum, in order"""
        if getattr(s, "enum_pkg", None):
            return []  # a split schema: not every enum is visible from the package of the root
        return [(i, s.n.member(i, j)) for i, e in enumerate(s.enums, 1) for j in range(len(e["vals"]))]

    def unit(self, pkg):
        """The package whose output file holds the definitions of pkg."""
        return self.main if self.single else pkg

    def out_arg(self, gendir, main):
        """What to give as -o; main: path of the package of the file compiled."""
        self.main = main
        return os.path.join(gendir, main + self.ext) if self.single else gendir

    def emit(self, schemas, pkgs, gendir, drvdir):
        raise NotImplementedError

    def build_cmds(self, gendir, drvdir):
        return []

    def run_cmd(self, gendir, drvdir):
        raise NotImplementedError


def ctype_name(k):
    return k


# ---------------------------------------------------------------- C
class C(Target):
    name = "c"
    ext = ".bb.h"
    flag = "c"
    has_length = False

    RT = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
static char** tok; static int ntok;
static uint64_t u(const char* s){ return strtoull(s,0,16); }
static int hv(int c){ return c<='9'?c-'0':c-'a'+10; }
static uint8_t* unhex(const char* s, uint64_t* n, int extra){
  if(*s=='-') s++;
  uint64_t l=strlen(s)/2; uint8_t* b=malloc(l+extra?l+extra:1); for(uint64_t i=0;i<l;i++) b[i]=(uint8_t)(hv(s[2*i])*16+hv(s[2*i+1]));
  *n=l; return b; }
static void phex(const uint8_t* b, uint64_t n){ for(uint64_t i=0;i<n;i++) printf("%02x", b[i]); }
static char* ts(const char* s){ uint64_t n; uint8_t* b=unhex(s+1,&n,1); b[n]=0; return (char*)b; }
static struct bytes tb(const char* s){ struct bytes r; uint64_t n; r.data=unhex(s+1,&n,0); r.length=n; return r; }
static float tf(const char* s){ uint32_t x=(uint32_t)u(s); float f; memcpy(&f,&x,4); return f; }
static double td(const char* s){ uint64_t x=u(s); double f; memcpy(&f,&x,8); return f; }
static void pu(uint64_t v){ printf(" %llx",(unsigned long long)v); }
static void pf(float f){ uint32_t x; memcpy(&x,&f,4); pu(x); }
static void pd(double f){ uint64_t x; memcpy(&x,&f,8); pu(x); }
static void ps(const char* s){ if(!s){printf(" ?");return;} printf(" s"); phex((const uint8_t*)s,strlen(s)); }
static void pb(struct bytes b){ printf(" b"); phex(b.data,b.length); }
'''

    def lv(self, base, p):
        e = base
        for name, ix, f in p:
            e += "." + name + ("[%d]" % ix if ix is not None else "")
        return e

    def owner(self, s, p):
        """name of the struct that holds the last field of path p"""
        return s.n.struct(p[-2][2]["ref"]) if len(p) > 1 else s.root_name()

    # accessor calls on the struct in lvalue h
    def aget(self, own, h, name, ix):
        return "%s_get_%s(&%s)" % (own, name, h) if ix is None else "%s_get_%s_item(&%s,%d)" % (own, name, h, ix)

    def aset(self, own, h, name, ix, v):
        return "%s_set_%s(&%s,%s);" % (own, name, h, v) if ix is None else "%s_set_%s_item(&%s,%d,%s);" % (own, name, h, ix, v)

    def aarr(self, own, h, name, ix, v, lv, n):
        """replace element ix by way of the whole array"""
        return ("{ __typeof__(%s) tmp[%d]; if(%s_get_%s_length(&%s)!=%d) abort(); memcpy(tmp,%s_get_%s(&%s),sizeof tmp); tmp[%d]=%s; %s_set_%s(&%s,tmp,%d); }"
                % (lv, n, own, name, h, n, own, name, h, ix, v, own, name, h, n))

    def atype(self, e):
        return "__typeof__(%s)" % e

    def through(self, s, base, p, set_last):
        """code that copies the structs along p out through getters, changes the last and puts them back"""
        if len(p) == 1:
            return set_last(base)
        name, ix, f = p[0]
        own = self.cur
        self.cur = s.n.struct(f["ref"])
        self.tmp += 1
        t = "t%d" % self.tmp
        inner = self.through(s, t, p[1:], set_last)
        return "{ %s %s=%s; %s %s }" % (self.atype(base + "." + name + ("[0]" if ix is not None else "")), t, self.aget(own, base, name, ix), inner, self.aset(own, base, name, ix, t))

    def puts(self, s, i, p, plain, v, base="(*o)"):
        """code that sets leaf i to v in the form `way` says"""
        if self.minimal or not self.rich:
            return plain
        name, ix, f = p[-1]
        own, h, lv = self.owner(s, p), self.lv(base, p[:-1]), self.lv(base, p)
        forms = [plain, self.aset(own, h, name, ix, v)]
        if ix is not None:
            forms.append(self.aarr(own, h, name, ix, v, lv, f["len"]))
        self.cur = s.root_name()
        self.tmp = 0
        if len(p) > 1:
            forms.append(self.through(s, base, p, lambda h2: self.aset(own, h2, name, ix, v)))
        return "switch((way+%d)%%%d){ %s }" % (i, len(forms), " ".join("case %d: %s break;" % (j, x) for j, x in enumerate(forms)))

    def dget(self, s, p, base="(*o)"):
        """expression that reads leaf p through its getter"""
        name, ix, f = p[-1]
        return self.aget(self.owner(s, p), self.lv(base, p[:-1]), name, ix)

    def emit(self, schemas, pkgs, gendir, drvdir):
        o = []
        for h in sorted(set(self.unit(p) for p in pkgs)):
            o.append('#include "%s.bb.h"' % h)
        o.append('#include <stdint.h>\n#ifndef __BYTES_TYPE\n#define __BYTES_TYPE\nstruct bytes { uint8_t* data; uint64_t length; };\n#endif')
        o.append(self.RT)
        cases = []
        for k, s in enumerate(schemas):
            S = "struct " + s.root_name()
            R = s.root_name()
            o.append("static %s o%d;" % (S, k))
            st, dm, dg = [], [], []
            for i, p in enumerate(s.leaves()):
                f = p[-1][2]
                e = self.lv("(*o)", p)
                kk = f["k"]
                if kk == "str":
                    v, w = "ts(t)", "ps(%s);"
                elif kk == "byt":
                    v, w = "tb(t)", "pb(%s);"
                elif kk == "bool":
                    v, w = "(bool)u(t)", "pu(%s);"
                elif kk == "float":
                    c = "f" if f["tw"] == 32 else "d"
                    v, w = "t%s(t)" % c, "p" + c + "(%s);"
                elif kk == "enum":
                    v, w = "(enum %s)u(t)" % s.n.enum(f["ref"]), "pu((uint64_t)%s);"
                else:
                    c = ("int%d_t" if kk == "int" else "uint%d_t") % f["tw"]
                    v, w = "(%s)u(t)" % c, "pu((uint64_t)(uint" + str(f["tw"]) + "_t)%s);"
                st.append("case %d: %s break;" % (i, self.puts(s, i, p, "%s=%s;" % (e, v), v)))
                dm.append(w % e)
                dg.append(w % self.dget(s, p))
            o.append("static void put%d(%s* o,int i,const char* t,int way){ switch(i){ %s } }" % (k, S, "\n ".join(st)))
            o.append("static void set%d(%s* o,int way){ for(int i=0;i<%d;i++) put%d(o,i,tok[i],way); }" % (k, S, len(dm), k))
            if self.rich and not self.minimal:
                dm = ["if(way%2){"] + dg + ["return; }"] + dm
            o.append("static void dump%d(%s* o,int way){ %s }" % (k, S, "\n ".join(dm)))
            cases.append("case %d: switch(op){\n" % k +
                         "case 'N': memset(&o%d,0,sizeof o%d); printf(\"ok\"); break;\n" % (k, k) +
                         "case 'S': set%d(&o%d,way); printf(\"ok\"); break;\n" % (k, k) +
                         "case 'E': { uint64_t z=%s_encode_size(&o%d); uint8_t* b=calloc(z?z:1,1); uint64_t n=%s_encode(&o%d,b); printf(\"%%llu \",(unsigned long long)n); phex(b,n<=z?n:z); free(b); break; }\n" % (R, k, R, k) +
                         "case 'I': { uint64_t fl; uint8_t* f=unhex(tok[0],&fl,0); int st=atoi(tok[1]), tot=atoi(tok[2]); uint8_t* b=malloc(tot?tot:1); for(int i=0;i<tot;i++) b[i]=f[i%%fl]; uint64_t n=%s_encode(&o%d,b+st); printf(\"%%llu \",(unsigned long long)n); phex(b,tot); free(b); break; }\n" % (R, k) +
                         "case 'Z': printf(\"%%llu\",(unsigned long long)%s_encode_size(&o%d)); break;\n" % (R, k) +
                         "case 'D': { uint64_t n; uint8_t* b=unhex(tok[1],&n,0); int st=atoi(tok[0]); long long r=%s_decode(b+st,&o%d); if(r<0) printf(\"-1\"); else { printf(\"%%lld\",r); dump%d(&o%d,way);} break; }\n" % (R, k, k, k) +
                         "case 'A': { uint64_t n; uint8_t* b=unhex(tok[0],&n,0); %s x; memset(&x,0,sizeof x); long long r=%s_decode(b,&x); for(uint64_t i=0;i<n;i++) b[i]^=0xff; free(b); if(r<0) printf(\"-1\"); else { printf(\"%%lld\",r); dump%d(&x,0);} break; }\n" % (S, R, k) +
                         "case 'R': { uint64_t z=%s_encode_size(&o%d); uint8_t* b=calloc(z?z:1,1); %s_encode(&o%d,b); %s x; memset(&x,0,sizeof x); long long r=%s_decode(b,&x); if(r<0) printf(\"-1\"); else { printf(\"%%lld\",r); dump%d(&x,0);} free(b); break; }\n" % (R, k, R, k, S, R, k) +
                         "case 'L': { uint64_t n; uint8_t* b=unhex(tok[1],&n,0); int st=atoi(tok[0]); char* q=tok[2]; while(*q){ int p=(int)strtol(q,&q,10); if(*q==',') q++; uint8_t* c=malloc(p?p:1); memcpy(c,b+st,p); printf(\"%%lld \",(long long)%s_decode_size(c,p)); free(c);} free(b); break; }\n" % R +
                         "case 'G': dump%d(&o%d,way); break;\n" % (k, k) +
                         "case 'P': put%d(&o%d,atoi(tok[0]),tok[1],way); dump%d(&o%d,way); break;\n" % (k, k, k, k) +
                         "case 'F': printf(\"%%llu %%d\",(unsigned long long)%s_size,(int)%s_dynamic); break;\n" % (R, R) +
                         "case 'M': %s break;\n" % "".join("pu((uint64_t)%s);" % m for _, m in self.members(s)) +
                         "} break;")
        o.append(r'''
int main(int argc,char**argv){
  FILE* f=fopen(argv[1],"r"); static char* line; size_t cap=0; long ln=0; tok=malloc(sizeof(char*)*100000);
  setvbuf(stdout,0,_IOFBF,1<<16);
  while(getline(&line,&cap,f)>0){
    char* sv; char* w=strtok_r(line," \n",&sv); if(!w) continue; char op=*w; int way=w[1]?w[1]-'0':0; int k=atoi(strtok_r(0," \n",&sv)); ntok=0;
    while((w=strtok_r(0," \n",&sv))) tok[ntok++]=w;
    printf("%ld ",ln++);
    switch(k){
''')
        o.append("\n".join(cases))
        o.append("    }\n    printf(\"\\n\"); fflush(stdout);\n  }\n  return 0;\n}\n")
        open(os.path.join(drvdir, "driver.c"), "w").write("\n".join(o))

    def build_cmds(self, gendir, drvdir):
        srcs = []
        for d, _, fs in os.walk(gendir):
            srcs += [os.path.join(d, x) for x in fs if x.endswith(".c")]
        return [["gcc", "-std=c11", "-D_GNU_SOURCE", "-w", "-O0"] + self.cflags + ["-I", gendir, "-o", os.path.join(drvdir, "driver"),
                 os.path.join(drvdir, "driver.c")] + sorted(srcs) + ["-lm"]]

    def run_cmd(self, gendir, drvdir):
        return [os.path.join(drvdir, "driver")]


# ---------------------------------------------------------------- C++
class Cpp(C):
    name = "cpp"
    ext = ".bb.hpp"
    flag = "cpp"
    RT = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <memory>
#include <fstream>
#include <sstream>
#include <iostream>
static std::vector<std::string> tok;
static uint64_t u(const std::string& s){ return strtoull(s.c_str(),0,16); }
static int hv(int c){ return c<='9'?c-'0':c-'a'+10; }
static std::vector<uint8_t> unhex(const std::string& s0){ std::string s=s0; if(!s.empty()&&s[0]=='-') s=s.substr(1); std::vector<uint8_t> b(s.size()/2); for(size_t i=0;i<b.size();i++) b[i]=(uint8_t)(hv(s[2*i])*16+hv(s[2*i+1])); return b; }
static void phex(const uint8_t* b, uint64_t n){ for(uint64_t i=0;i<n;i++) printf("%02x", b[i]); }
static std::string ts(const std::string& s){ auto b=unhex(s.substr(1)); return std::string(b.begin(),b.end()); }
static ::bytes tb(const std::string& s){ auto b=unhex(s.substr(1)); ::bytes r; r.data=std::shared_ptr<uint8_t[]>(new uint8_t[b.size()+1]); if(b.size()) memcpy(r.data.get(),b.data(),b.size()); r.length=b.size(); return r; }
static float tf(const std::string& s){ uint32_t x=(uint32_t)u(s); float f; memcpy(&f,&x,4); return f; }
static double td(const std::string& s){ uint64_t x=u(s); double f; memcpy(&f,&x,8); return f; }
static void pu(uint64_t v){ printf(" %llx",(unsigned long long)v); }
static void pf(float f){ uint32_t x; memcpy(&x,&f,4); pu(x); }
static void pd(double f){ uint64_t x; memcpy(&x,&f,8); pu(x); }
static void ps(const std::string& s){ printf(" s"); phex((const uint8_t*)s.data(),s.size()); }
static void pb(const ::bytes& b){ printf(" b"); phex(b.data.get(),b.length); }
static uint8_t* keep(const std::vector<uint8_t>& b){ uint8_t* p=(uint8_t*)malloc(b.size()?b.size():1); if(b.size()) memcpy(p,b.data(),b.size()); return p; }
'''

    def aget(self, own, h, name, ix):
        return "%s.get_%s()" % (h, name) if ix is None else "%s.get_%s_item(%d)" % (h, name, ix)

    def aset(self, own, h, name, ix, v):
        return "%s.set_%s(%s);" % (h, name, v) if ix is None else "%s.set_%s_item(%d,%s);" % (h, name, ix, v)

    def atype(self, e):
        return "std::remove_reference_t<decltype(%s)>" % e

    def aarr(self, own, h, name, ix, v, lv, n):
        return ("{ %s tmp[%d]; if(%s.get_%s_length()!=%d) abort(); for(int j=0;j<%d;j++) tmp[j]=%s.get_%s()[j]; tmp[%d]=%s; %s.set_%s(tmp,%d); }"
                % (self.atype(lv), n, h, name, n, n, h, name, ix, v, h, name, n))

    def ns(self, pkg):
        return "::" + "::".join(self.nsmap.get(pkg) or pkg.split("/"))

    def emit(self, schemas, pkgs, gendir, drvdir):
        o = []
        for h in sorted(set(self.unit(p) for p in pkgs)):
            o.append('#include "%s.bb.hpp"' % h)
        o.append('#ifndef __BYTES_TYPE\n#define __BYTES_TYPE\n#include <memory>\n#include <cstdint>\nstruct bytes { std::shared_ptr<uint8_t[]> data; uint64_t length; };\n#endif')
        o.append(self.RT)
        if not self.compat:
            o.append("typedef std::span<const uint8_t> CS;")
        o.append("#define WAY(n) (way%3==n)")
        cases = []
        for k, s in enumerate(schemas):
            ns = self.ns(pkgs[k])
            ns_enums = not hasattr(s, "enum_pkg")
            S = ns + "::" + s.root_name()
            o.append("static %s* o%d = new %s();" % (S, k, S))
            st, dm, dg = [], [], []
            for i, p in enumerate(s.leaves()):
                f = p[-1][2]
                e = self.lv("(*o)", p)
                kk = f["k"]
                if kk == "str":
                    v, w = "ts(t)", "ps(%s);"
                elif kk == "byt":
                    v, w = "tb(t)", "pb(%s);"
                elif kk == "bool":
                    v, w = "(bool)u(t)", "pu(%s);"
                elif kk == "float":
                    c = "f" if f["tw"] == 32 else "d"
                    v, w = "t%s(t)" % c, "p" + c + "(%s);"
                elif kk == "enum":
                    v, w = "(%s)u(t)" % self.atype(e), "pu((uint64_t)%s);"
                else:
                    c = ("int%d_t" if kk == "int" else "uint%d_t") % f["tw"]
                    v, w = "(%s)u(t)" % c, "pu((uint64_t)(uint" + str(f["tw"]) + "_t)%s);"
                st.append("case %d: %s break;" % (i, self.puts(s, i, p, "%s=%s;" % (e, v), v)))
                dm.append(w % e)
                dg.append(w % self.dget(s, p))
            o.append("static void put%d(%s* o,int i,const std::string& t,int way){ switch(i){ %s } }" % (k, S, "\n ".join(st)))
            o.append("static void set%d(%s* o,int way){ for(int i=0;i<%d;i++) put%d(o,i,tok[i],way); }" % (k, S, len(dm), k))
            if self.rich and not self.minimal:
                dm = ["if(way%2){"] + dg + ["return; }"] + dm
            o.append("static void dump%d(%s* o,int way){ %s }" % (k, S, "\n ".join(dm)))
            cases.append(("case %d: switch(op){\n" % k +
                         "case 'N': delete oK; oK=new T(); printf(\"ok\"); break;\n"
                         "case 'S': setK(oK,way); printf(\"ok\"); break;\n"
                         "case 'E': { uint64_t z=oK->encode_size(); uint8_t* b=(uint8_t*)calloc(z?z:1,1); uint64_t n=(WAY(1)?oK->encode((void*)b):oK->encode(std::span<uint8_t>(b,z))); printf(\"%llu \",(unsigned long long)n); phex(b,n<=z?n:z); free(b); break; }\n"
                         "case 'I': { auto f=unhex(tok[0]); int st=atoi(tok[1].c_str()), tot=atoi(tok[2].c_str()); uint8_t* b=(uint8_t*)malloc(tot?tot:1); for(int i=0;i<tot;i++) b[i]=f[i%f.size()]; uint64_t n=(WAY(1)?oK->encode((void*)(b+st)):oK->encode(std::span<uint8_t>(b+st,tot-st))); printf(\"%llu \",(unsigned long long)n); phex(b,tot); free(b); break; }\n"
                         "case 'Z': printf(\"%llu\",(unsigned long long)oK->encode_size()); break;\n"
                         "case 'D': { auto v=unhex(tok[1]); uint8_t* b=keep(v); int st=atoi(tok[0].c_str()); long long r=oK->decode(CS(b+st,v.size()-st)); if(r<0) printf(\"-1\"); else { printf(\"%lld\",r); dumpK(oK,way);} break; }\n"
                         "case 'A': { auto v=unhex(tok[0]); uint8_t* b=keep(v); T x; long long r=(WAY(1)?x.decode((const void*)b):x.decode(CS(b,v.size()))); for(size_t i=0;i<v.size();i++) b[i]^=0xff; free(b); if(r<0) printf(\"-1\"); else { printf(\"%lld\",r); dumpK(&x,0);} break; }\n"
                         "case 'R': { uint64_t z=oK->encode_size(); uint8_t* b=(uint8_t*)calloc(z?z:1,1); (WAY(1)?oK->encode((void*)b):oK->encode(std::span<uint8_t>(b,z))); T x; long long r=(WAY(2)?x.decode((const void*)b):x.decode(CS(b,z))); if(r<0) printf(\"-1\"); else { printf(\"%lld\",r); dumpK(&x,0);} free(b); break; }\n"
                         "case 'L': { auto v=unhex(tok[1]); int st=atoi(tok[0].c_str()); const char* q=tok[2].c_str(); while(*q){ char* e; int p=(int)strtol(q,&e,10); q=e; if(*q==',') q++; uint8_t* c=(uint8_t*)malloc(p?p:1); memcpy(c,v.data()+st,p); printf(\"%lld \",(long long)(WAY(1) ? T::decode_size((const void*)c,p) : T::decode_size(CS(c,p)))); free(c);} break; }\n"
                         "case 'G': dumpK(oK,way); break;\ncase 'W': delete oK; oK=new T(); for(size_t i=0;i<tok.size();i++) if(tok[i]!=\"-\") putK(oK,(int)i,tok[i],way); dumpK(oK,way); break;\ncase 'P': putK(oK,atoi(tok[0].c_str()),tok[1],way); dumpK(oK,way); break;\ncase 'F': printf(\"%llu %d\",(unsigned long long)T::size,(int)T::dynamic); break;\ncase 'M': MEMBERS break;\n} break;").replace(
                             "MEMBERS", "".join("pu((uint64_t)%s::%s::%s);" % (ns, s.n.enum(i), m) for i, m in self.members(s)) if ns_enums else "").replace("oK", "o%d" % k).replace("setK", "set%d" % k).replace("putK", "put%d" % k).replace("dumpK", "dump%d" % k).replace("T()", S + "()").replace("T x", S + " x").replace("T::", S + "::"))
            if self.compat:
                c = cases.pop()
                for a, b in (("std::span<uint8_t>(b,z)", "b"), ("std::span<uint8_t>(b+st,tot-st)", "b+st"), ("CS(b+st,v.size()-st)", "b+st"), ("decode(CS(b,v.size()))", "decode(b)"), ("decode(CS(b,z))", "decode(b)"), ("decode_size(CS(c,p))", "decode_size(c,p)")):
                    assert a in c
                    c = c.replace(a, b)
                cases.append(c)
        o.append(r'''
int main(int argc,char**argv){
  std::ifstream f(argv[1]); std::string line; long ln=0;
  while(std::getline(f,line)){
    std::istringstream is(line); std::string w; is>>w; if(w.empty()) continue; char op=w[0]; int way=w.size()>1?w[1]-'0':0; int k; is>>k; tok.clear(); while(is>>w) tok.push_back(w);
    printf("%ld ",ln++);
    switch(k){
''')
        o.append("\n".join(cases))
        o.append("    }\n    printf(\"\\n\"); fflush(stdout);\n  }\n  return 0;\n}\n")
        open(os.path.join(drvdir, "driver.cpp"), "w").write("\n".join(o))

    def build_cmds(self, gendir, drvdir):
        srcs = []
        for d, _, fs in os.walk(gendir):
            srcs += [os.path.join(d, x) for x in fs if x.endswith(".cpp")]
        return [["g++", "-std=c++17" if self.compat else "-std=c++20", "-w", "-O0"] + self.cflags + ["-I", gendir, "-o", os.path.join(drvdir, "driver"),
                 os.path.join(drvdir, "driver.cpp")] + sorted(srcs)]


# ---------------------------------------------------------------- Go
class Go(Target):
    name = "go"

    def out_arg(self, gendir, main):
        self.main = main
        return os.path.join(gendir, main, main.split("/")[-1] + ".bb.go") if self.single else gendir

    flag = "go"
    RT = r'''
import (
	"bufio"
	"encoding/hex"
	"fmt"
	"math"
	"os"
	"strconv"
	"strings"
@IMPORTS@
)
var _ = math.Pi
func u(s string) uint64 { v, _ := strconv.ParseUint(s, 16, 64); return v }
func unhex(s string) []byte { b, _ := hex.DecodeString(strings.TrimPrefix(s, "-")); return b }
func tf(s string) float32 { return math.Float32frombits(uint32(u(s))) }
func td(s string) float64 { return math.Float64frombits(u(s)) }
func pu(w *strings.Builder, v uint64) { w.WriteByte(' '); w.WriteString(strconv.FormatUint(v, 16)) }
func pf(w *strings.Builder, v float32) { pu(w, uint64(math.Float32bits(v))) }
func pd(w *strings.Builder, v float64) { pu(w, math.Float64bits(v)) }
func ps(w *strings.Builder, s string) { w.WriteString(" s" + hex.EncodeToString([]byte(s))) }
func pb(w *strings.Builder, s []byte) { w.WriteString(" b" + hex.EncodeToString(s)) }
func ptf(w *strings.Builder, b bool) { if b { pu(w, 1) } else { pu(w, 0) } }
type ops struct {
	nw func()
	set func(tok []string, way int)
	put func(i int, t string, way int)
	enc func(way int) []byte
	into func(b []byte) int
	size func() int
	dec func(b []byte) int
	dsz func(b []byte) int
	dump func(w *strings.Builder, way int)
	fact func() (uint64, bool)
	mem func(w *strings.Builder)
}
var table []ops
// the same bytes, in odd ways with other bytes in the capacity behind them
func spare(b []byte, way int) []byte { if way%2 == 0 { return b }; w := append(append([]byte{}, b...), 1, 0, 129, 122, 0); return w[:len(b)] }
func one(op byte, way int, o *ops, tok []string) (res string) {
	defer func() { if e := recover(); e != nil { res = "X " + strings.ReplaceAll(fmt.Sprint(e), "\n", " ") } }()
	var w strings.Builder
	switch op {
	case 'N': o.nw(); return "ok"
	case 'S': o.set(tok, way); return "ok"
	case 'E': b := o.enc(way); return fmt.Sprintf("%d %s", len(b), hex.EncodeToString(b))
	case 'I':
		f := unhex(tok[0]); st, _ := strconv.Atoi(tok[1]); tot, _ := strconv.Atoi(tok[2])
		b := make([]byte, tot); for i := range b { b[i] = f[i%len(f)] }
		n := o.into(b[st:])
		return fmt.Sprintf("%d %s", n, hex.EncodeToString(b))
	case 'Z': return strconv.Itoa(o.size())
	case 'D':
		st, _ := strconv.Atoi(tok[0]); b := unhex(tok[1])
		n := o.dec(spare(b[st:len(b):len(b)], way))
		if n < 0 { return "-1" }
		w.WriteString(strconv.Itoa(n)); o.dump(&w, way); return w.String()
	case 'A':
		b := unhex(tok[0]); o.nw(); n := o.dec(b)
		for i := range b { b[i] ^= 0xff }
		if n < 0 { return "-1" }
		w.WriteString(strconv.Itoa(n)); o.dump(&w, way); return w.String()
	case 'R':
		b := o.enc(way); o.nw(); n := o.dec(b)
		if n < 0 { return "-1" }
		w.WriteString(strconv.Itoa(n)); o.dump(&w, way); return w.String()
	case 'L':
		st, _ := strconv.Atoi(tok[0]); b := unhex(tok[1])
		for _, q := range strings.Split(tok[2], ",") { p, _ := strconv.Atoi(q); fmt.Fprintf(&w, "%d ", o.dsz(spare(b[st:st+p:st+p], way))) }
		return w.String()
	case 'G': o.dump(&w, way); return w.String()
	case 'W': o.nw(); for i, x := range tok { if x != "-" { o.put(i, x, way) } }; o.dump(&w, way); return w.String()
	case 'P': i, _ := strconv.Atoi(tok[0]); o.put(i, tok[1], way); o.dump(&w, way); return w.String()
	case 'F': n, d := o.fact(); if d { return fmt.Sprintf("%d 1", n) }; return fmt.Sprintf("%d 0", n)
	case 'M': o.mem(&w); return w.String()
	}
	return "?"
}
func main() {
	f, _ := os.Open(os.Args[1]); sc := bufio.NewScanner(f); sc.Buffer(make([]byte, 1<<20), 1<<26)
	out := bufio.NewWriter(os.Stdout)
	for ln := 0; sc.Scan(); ln++ {
		t := strings.Fields(sc.Text()); k, _ := strconv.Atoi(t[1])
		fmt.Fprintf(out, "%d %s\n", ln, one(t[0][0], int((t[0]+"0")[1]-'0'), &table[k], t[2:])); out.Flush()
	}
}
'''

    def lv(self, base, p):
        e = base
        for name, ix, f in p:
            e += "." + pascal(name) + ("[%d]" % ix if ix is not None else "")
        return e

    def aget(self, h, pe):
        return "%s.Get%s()%s" % (h, pascal(pe[0]), "" if pe[1] is None else "[%d]" % pe[1])

    def aset(self, h, pe, v):
        n = pascal(pe[0])
        if pe[1] is None:
            return "%s.Set%s(%s)" % (h, n, v)
        return "{ a := %s.Get%s(); a[%d] = %s; %s.Set%s(a) }" % (h, n, pe[1], v, h, n)

    def through(self, h, p, v, d=0):
        if len(p) == 1:
            return self.aset(h, p[0], v)
        return "{ t%d := %s; %s; %s }" % (d, self.aget(h, p[0]), self.through("t%d" % d, p[1:], v, d + 1), self.aset(h, p[0], "t%d" % d))

    def puts(self, i, p, plain, v):
        if self.minimal or not self.rich:
            return plain
        forms = [plain, self.aset(self.lv("x", p[:-1]), p[-1], v)]
        if len(p) > 1:
            forms.append(self.through("x", p, v))
        return "switch (way+%d)%%%d { %s }" % (i, len(forms), "; ".join("case %d: %s" % (j, x) for j, x in enumerate(forms)))

    def emit(self, schemas, pkgs, gendir, drvdir):
        names = {}
        for p in list(pkgs) + [p for s in schemas for p in getattr(s, "used_enum_pkgs", ())]:
            names.setdefault(p, "p%d" % len(names))
        imports = "\n".join('\t%s "%s"' % (names[p], self.import_path(p)) for p in sorted(names))
        o = ["package main", self.RT.replace("@IMPORTS@", imports)]
        o.append("func init() {")
        o.append("\ttable = make([]ops, %d)" % len(schemas))
        for k in range(len(schemas)):
            o.append("\tinit%d()" % k)
        o.append("}")
        for k, s in enumerate(schemas):
            a = names[pkgs[k]]
            S = "%s.%s" % (a, s.root_name())
            st, dm, dg = [], [], []
            for i, p in enumerate(s.leaves()):
                f = p[-1][2]
                e = self.lv("x", p)
                kk = f["k"]
                if kk == "str":
                    v, w = "string(unhex(t[1:]))", "ps(w,%s)"
                elif kk == "byt":
                    v, w = "unhex(t[1:])", "pb(w,%s)"
                elif kk == "bool":
                    v, w = "u(t)!=0", "ptf(w,%s)"
                elif kk == "float":
                    c = "f" if f["tw"] == 32 else "d"
                    v, w = "t%s(t)" % c, "p" + c + "(w,%s)"
                elif kk == "enum":
                    ea = names.get(getattr(s, "enum_pkg", {}).get(f["ref"], pkgs[k]), a)
                    v, w = "%s.%s(u(t))" % (ea, s.n.enum(f["ref"])), "pu(w,uint64(%s))"
                else:
                    c = ("int%d" if kk == "int" else "uint%d") % f["tw"]
                    v, w = "%s(u(t))" % c, "pu(w,uint64(uint" + str(f["tw"]) + "(%s)))"
                st.append("case %d: %s" % (i, self.puts(i, p, "%s=%s" % (e, v), v)))
                dm.append(w % e)
                dg.append(w % self.aget(self.lv("x", p[:-1]), p[-1]))
            o.append("var o%d = &%s{}" % (k, S))
            o.append("func init%d() { table[%d] = ops{" % (k, k))
            o.append("nw: func() { o%d = &%s{} }," % (k, S))
            o.append("put: func(i int, t string, way int) { x := o%d; _ = x\nswitch i {\n%s\n}\n}," % (k, "\n".join(st)))
            o.append("set: func(tok []string, way int) { for i := 0; i < %d; i++ { table[%d].put(i, tok[i], way) } }," % (len(dm), k))
            o.append("enc: func(way int) []byte { if way%%2==1 { b := make([]byte, o%d.EncodeSize()); return b[:o%d.EncodeTo(b)] }; return o%d.Encode() }," % (k, k, k))
            o.append("fact: func() (uint64, bool) { return (%s{}).Size(), o%d.Dynamic() }," % (S, k))
            if self.rich and not self.minimal:
                dm = ["if way%2==1 {"] + dg + ["return }"] + dm
            o.append("into: func(b []byte) int { return o%d.EncodeTo(b) }," % k)
            o.append("size: func() int { return o%d.EncodeSize() }," % k)
            o.append("dec: func(b []byte) int { return o%d.Decode(b) }," % k)
            o.append("dsz: func(b []byte) int { return (&%s{}).DecodeSize(b) }," % S)
            o.append("dump: func(w *strings.Builder, way int) { x := o%d; _ = x\n%s\n}," % (k, "\n".join(dm)))
            o.append("mem: func(w *strings.Builder) {\n%s\n}," % "\n".join("pu(w,uint64(%s.%s))" % (a, m) for _, m in self.members(s) if not hasattr(s, "enum_pkg")))
            o.append("} }")
        open(os.path.join(gendir, "zz_driver.go"), "w").write("\n".join(o))
        open(os.path.join(gendir, "go.mod"), "w").write("module vpgen\n\ngo 1.23\n")
        # the generated files name imported packages by their bare paths
        roots = sorted({p.split("/")[0] for p in pkgs})
        self._fix_imports(gendir)

    def import_path(self, p):
        return "vpgen/" + self.unit(p)

    def _fix_imports(self, gendir):
        """Give generated cross-package imports the module prefix of this build."""
        for d, _, fs in os.walk(gendir):
            for x in fs:
                if not x.endswith(".bb.go"):
                    continue
                fn = os.path.join(d, x)
                t = open(fn).read()
                m = re.search(r"^import \((.*?)^\)", t, re.S | re.M)
                if not m:
                    continue
                def sub(q):
                    path = q.group(2)
                    if os.path.isdir(os.path.join(gendir, path)):
                        return q.group(1) + '"vpgen/' + path + '"'
                    return q.group(0)
                blk = re.sub(r'([ \t]*(?:\w+ )?)"([^"]+)"', sub, m.group(1))
                if blk != m.group(1):
                    open(fn, "w").write(t[:m.start(1)] + blk + t[m.end(1):])

    def build_cmds(self, gendir, drvdir):
        return [("cwd", gendir, ["go", "build", "-gcflags=all=-l -N" if False else "-gcflags=-l", "-o", os.path.join(drvdir, "driver"), "."])]

    def run_cmd(self, gendir, drvdir):
        return [os.path.join(drvdir, "driver")]


# ---------------------------------------------------------------- Java
class Java(Target):
    name = "java"
    ext = ""
    flag = "java"
    RT = r'''
import java.util.*; import java.io.*; import java.nio.charset.StandardCharsets; import java.nio.file.*;
final class R {
  static long u(String s){ return Long.parseUnsignedLong(s,16); }
  static byte[] unhex(String s){ if(s.startsWith("-")) s=s.substring(1); byte[] b=new byte[s.length()/2]; for(int i=0;i<b.length;i++) b[i]=(byte)Integer.parseInt(s.substring(2*i,2*i+2),16); return b; }
  static final char[] HX="0123456789abcdef".toCharArray();
  static String hex(byte[] b){ StringBuilder w=new StringBuilder(); for(byte x:b){ w.append(HX[(x>>4)&15]).append(HX[x&15]); } return w.toString(); }
  static String ts(String s){ return new String(unhex(s.substring(1)),StandardCharsets.UTF_8); }
  static byte[] tb(String s){ return unhex(s.substring(1)); }
  static float tf(String s){ return Float.intBitsToFloat((int)u(s)); }
  static double td(String s){ return Double.longBitsToDouble(u(s)); }
  static void pu(StringBuilder w,long v){ w.append(' ').append(Long.toHexString(v)); }
  static void pf(StringBuilder w,float v){ pu(w,Float.floatToRawIntBits(v)&0xffffffffL); }
  static void pd(StringBuilder w,double v){ pu(w,Double.doubleToRawLongBits(v)); }
  static void pt(StringBuilder w,boolean v){ pu(w,v?1:0); }
  static void ps(StringBuilder w,String v){ if(v==null){w.append(" ?");return;} w.append(" s").append(hex(v.getBytes(StandardCharsets.UTF_8))); }
  static void pb(StringBuilder w,byte[] v){ if(v==null){w.append(" ?");return;} w.append(" b").append(hex(v)); }
  static Object get(Object o,String n){ try{ java.lang.reflect.Field f=o.getClass().getDeclaredField(n); f.setAccessible(true); return f.get(o);}catch(Exception e){ throw new RuntimeException(e);} }
  static void set(Object o,String n,Object v){ try{ java.lang.reflect.Field f=o.getClass().getDeclaredField(n); f.setAccessible(true); f.set(o,v);}catch(Exception e){ throw new RuntimeException(e);} }
}
interface Ops { void nw(); void set(String[] t,int way); void put(int i,String t,int way); byte[] enc(int way); int into(byte[] b,int st); int size(); int dec(byte[] b,int st,int way); int dsz(byte[] b,int st,int way); void dump(StringBuilder w,int way); void mem(StringBuilder w); String fact(); Object obj(); void put(Object o); }
public class Driver {
  static String one(char op, int way, Ops o, String[] t){
    try {
      StringBuilder w=new StringBuilder();
      switch(op){
      case 'N': o.nw(); return "ok";
      case 'S': o.set(t,way); return "ok";
      case 'E': { byte[] b=o.enc(way); return b.length+" "+R.hex(b); }
      case 'I': { byte[] f=R.unhex(t[0]); int st=Integer.parseInt(t[1]), tot=Integer.parseInt(t[2]); byte[] b=new byte[tot]; for(int i=0;i<tot;i++) b[i]=f[i%f.length]; int n=o.into(b,st); return n+" "+R.hex(b); }
      case 'Z': return ""+o.size();
      case 'D': { int st=Integer.parseInt(t[0]); byte[] b=R.unhex(t[1]); int n=o.dec(b,st,way); if(n<0) return "-1"; w.append(n); o.dump(w,way); return w.toString(); }
      case 'A': { byte[] b=R.unhex(t[0]); o.nw(); int n=o.dec(b,0,way); for(int i=0;i<b.length;i++) b[i]^=(byte)0xff; if(n<0) return "-1"; w.append(n); o.dump(w,way); return w.toString(); }
      case 'R': { byte[] b=o.enc(way); o.nw(); int n=o.dec(b,0,way); if(n<0) return "-1"; w.append(n); o.dump(w,way); return w.toString(); }
      case 'L': { int st=Integer.parseInt(t[0]); byte[] b=R.unhex(t[1]); for(String q:t[2].split(",")){ int p=Integer.parseInt(q); w.append(o.dsz(Arrays.copyOf(b,st+p),st,way)).append(' '); } return w.toString(); }
      case 'G': o.dump(w,way); return w.toString();
      case 'W': o.nw(); for(int i=0;i<t.length;i++) if(!t[i].equals("-")) o.put(i,t[i],way); o.dump(w,way); return w.toString();
      case 'P': o.put(Integer.parseInt(t[0]),t[1],way); o.dump(w,way); return w.toString();
      case 'F': return o.fact();
      case 'Q': { Object x=o.obj(); o.nw(); o.set(Arrays.copyOfRange(t,1,t.length),0); if(t[0].equals("1")){ byte[] b=o.enc(0); o.nw(); if(o.dec(b,0,way)<0) return "-1"; } Object y=o.obj(); o.put(x);
        return (x.equals(y)?1:0)+" "+(y.equals(x)?1:0)+" "+(x.hashCode()==y.hashCode()?1:0); }
      case 'M': o.mem(w); return w.toString();
      }
      return "?";
    } catch(Throwable e){ return "X "+(e.toString().replace('\n',' ')); }
  }
  public static void main(String[] a) throws Exception {
    Ops[] tab = new Ops[]{ @TABLE@ };
    PrintStream out=new PrintStream(new BufferedOutputStream(new FileOutputStream(FileDescriptor.out),1<<16),false,"UTF-8"); int ln=0;
    for(String line: Files.readAllLines(Paths.get(a[0]))){ String[] p=line.trim().split(" +"); int k=Integer.parseInt(p[1]);
      out.println((ln++)+" "+one(p[0].charAt(0),p[0].length()>1?p[0].charAt(1)-'0':0,tab[k],Arrays.copyOfRange(p,2,p.length))); out.flush(); }
  }
}
'''
    JT = {8: "byte", 16: "short", 32: "int", 64: "long"}

    def jtype(self, s, k, f):
        kk = f["k"]
        t = {"bool": "boolean", "str": "String", "byt": "byte[]"}.get(kk)
        if kk == "float":
            t = "float" if f["tw"] == 32 else "double"
        elif kk == "enum":
            t = self.qual(s, k, "e", f["ref"])
        elif kk == "struct":
            t = self.qual(s, k, "s", f["ref"])
        elif t is None:
            t = self.JT[f["tw"]]
        return t + ("[]" if f["len"] else "")

    def qual(self, s, k, what, ref):
        pkgs = getattr(s, "enum_pkg" if what == "e" else "struct_pkg", {})
        pkg = pkgs.get(ref, self.pkgs[k])
        n = s.n.enum(ref) if what == "e" else s.n.struct(ref)
        return pkg.replace("/", ".") + "." + n

    def getx(self, s, k, base, p):
        e = base
        for name, ix, f in p:
            if self.minimal:
                e = '((%s)R.get(%s,"%s"))' % (self.jtype(s, k, f), e, camel(name))
            else:
                e = e + ".get" + pascal(name) + "()"
            if ix is not None:
                e += "[%d]" % ix
        return e

    def setx(self, s, k, base, p, val):
        name, ix, f = p[-1]
        if ix is not None:
            return "%s=%s;" % (self.getx(s, k, base, p), val)
        o = self.getx(s, k, base, p[:-1])
        if self.minimal:
            return 'R.set(%s,"%s",%s);' % (o, camel(name), val)
        return "%s.set%s(%s);" % (o, pascal(name), val)

    def aget(self, h, pe):
        return "%s.get%s%s" % (h, pascal(pe[0]), "()" if pe[1] is None else "At(%d)" % pe[1])

    def aset(self, h, pe, v):
        return "%s.set%s(%s);" % (h, pascal(pe[0]), v) if pe[1] is None else "%s.set%sAt(%d,%s);" % (h, pascal(pe[0]), pe[1], v)

    def puts(self, s, k, i, p, v):
        plain = self.setx(s, k, "x", p, v)
        if self.minimal or not self.rich:
            return plain
        h = self.getx(s, k, "x", p[:-1])
        forms = [plain, self.aset(h, p[-1], v)]
        name, ix, f = p[-1]
        if ix is not None:
            n = pascal(name)
            forms.append("{ %s a=%s.get%s().clone(); a[%d]=%s; %s.set%s(a); }" % (self.jtype(s, k, f), h, n, ix, v, h, n))
        return "switch((way+%d)%%%d){ %s }" % (i, len(forms), " ".join("case %d: %s break;" % (j, x) for j, x in enumerate(forms)))

    def emit(self, schemas, pkgs, gendir, drvdir):
        self.pkgs = pkgs
        o = [self.RT.replace("@TABLE@", ", ".join("new O%d()" % k for k in range(len(schemas))))]
        for k, s in enumerate(schemas):
            S = pkgs[k].replace("/", ".") + "." + s.root_name()
            st, dm, dg = [], [], []
            for i, p in enumerate(s.leaves()):
                f = p[-1][2]
                kk = f["k"]
                if kk == "str":
                    v, w = "R.ts(t)", "R.ps(w,%s);"
                elif kk == "byt":
                    v, w = "R.tb(t)", "R.pb(w,%s);"
                elif kk == "bool":
                    v, w = "R.u(t)!=0", "R.pt(w,%s);"
                elif kk == "float":
                    c = "f" if f["tw"] == 32 else "d"
                    v, w = "R.t%s(t)" % c, "R.p" + c + "(w,%s);"
                elif kk == "enum":
                    q = self.qual(s, k, "e", f["ref"])
                    c = self.JT[next(b for b in (8, 16, 32, 64) if s.enums[f["ref"] - 1]["w"] <= b)]
                    v, w = "%s.forNumber((%s)R.u(t))" % (q, c), "{ " + q + ' v=%s; if(v==null) w.append(" ?"); else R.pu(w,v.getNumber()); }'
                else:
                    c = self.JT[f["tw"]]
                    v, w = "(%s)R.u(t)" % c, "R.pu(w,%s" + {8: "&0xffL", 16: "&0xffffL", 32: "&0xffffffffL", 64: ""}[f["tw"]] + ");"
                st.append("case %d: %s break;" % (i, self.puts(s, k, i, p, v)))
                dm.append(w % self.getx(s, k, "x", p))
                dg.append(w % self.aget(self.getx(s, k, "x", p[:-1]), p[-1]))
            def split(lines, sig, call):
                """methods of bounded size (64 KB limit)"""
                if len(lines) <= 150:
                    return "  public void %s { %s }" % (sig, "\n    ".join(lines))
                out, names = [], []
                for j in range(0, len(lines), 150):
                    n = "%s_%d" % (sig.split("(")[0], j)
                    names.append(n)
                    out.append("  void %s(%s { %s }" % (n, sig.split("(", 1)[1], "\n    ".join(lines[j:j + 150])))
                return "\n".join(out) + "\n  public void %s { %s }" % (sig, " ".join("%s(%s);" % (n, call) for n in names))
            o.append("final class O%d implements Ops {\n  %s x=new %s();" % (k, S, S))
            o.append("  public void nw(){ x=new %s(); }" % S)
            chunks = [st[j:j + 60] for j in range(0, len(st), 60)]
            for j, c in enumerate(chunks):
                o.append("  void put%d(int i,String t,int way){ switch(i){ %s } }" % (j, "\n    ".join(c)))
            o.append("  public void put(int i,String t,int way){ switch(i/60){ %s } }" % " ".join("case %d: put%d(i,t,way); break;" % (j, j) for j in range(len(chunks))))
            o.append("  public void set(String[] t,int way){ for(int i=0;i<%d;i++) put(i,t[i],way); }" % len(st))
            o.append("  public Object obj(){ return x; }  public void put(Object o){ x=(%s)o; }  public String fact(){ return %s.size()+\" \"+(%s.dynamic()?1:0); }" % (S, S, S))
            o.append("  public byte[] enc(int way){ if(way%%2==1){ byte[] b=new byte[x.encodeSize()]; int n=x.encode(b,0); return n==b.length?b:Arrays.copyOf(b,n); } return x.encode(); }\n  public int into(byte[] b,int st){ return x.encode(b,st); }" % ())
            o.append("  public int size(){ return x.encodeSize(); }\n  public int dec(byte[] b,int st,int way){ return st==0 && way%2==0 ? x.decode(b) : x.decode(b,st); }")
            o.append("  public int dsz(byte[] b,int st,int way){ return st==0 && way%%2==0 ? new %s().decodeSize(b) : new %s().decodeSize(b,st); }" % (S, S))
            if self.rich and not self.minimal:
                o.append(split(dm, "dump0(StringBuilder w)", "w"))
                o.append(split(dg, "dump1(StringBuilder w)", "w"))
                o.append("  public void dump(StringBuilder w,int way){ if(way%2==1) dump1(w); else dump0(w); }")
            else:
                o.append(split(dm, "dump(StringBuilder w,int way)", "w,way"))
            o.append("  public void mem(StringBuilder w){ %s }" % "".join("R.pu(w,%s.%s.getNumber());" % (self.qual(s, k, "e", i), m) for i, m in self.members(s)))
            o.append("}")
        open(os.path.join(drvdir, "Driver.java"), "w").write("\n".join(o))

    def build_cmds(self, gendir, drvdir):
        srcs = []
        for d, _, fs in os.walk(gendir):
            srcs += [os.path.join(d, x) for x in fs if x.endswith(".java")]
        return [["javac", "-J-XX:+UseSerialGC", "-J-XX:TieredStopAtLevel=1", "-J-Xmx1500m", "-J-Xshare:auto", "-proc:none", "-nowarn", "-encoding", "UTF-8", "-g:none",
                 "-d", os.path.join(drvdir, "cls"), os.path.join(drvdir, "Driver.java")] + sorted(srcs)]

    def run_cmd(self, gendir, drvdir):
        return ["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xshare:auto", "-Xmx1g", "-cp", os.path.join(drvdir, "cls"), "Driver"]


# ---------------------------------------------------------------- C#
class CSharp(Target):
    name = "cs"
    ext = ".bb.cs"
    flag = "cs"
    RT = r'''
using System; using System.IO; using System.Text; using System.Collections.Generic; using System.Reflection;
static class R {
  public static ulong u(string s){ return Convert.ToUInt64(s,16); }
  public static byte[] unhex(string s){ if(s.StartsWith("-")) s=s.Substring(1); return Convert.FromHexString(s); }
  public static string hex(ReadOnlySpan<byte> b){ return Convert.ToHexString(b).ToLowerInvariant(); }
  public static string ts(string s){ return Encoding.UTF8.GetString(unhex(s.Substring(1))); }
  public static byte[] tb(string s){ return unhex(s.Substring(1)); }
  public static float tf(string s){ return BitConverter.Int32BitsToSingle(unchecked((int)u(s))); }
  public static double td(string s){ return BitConverter.Int64BitsToDouble(unchecked((long)u(s))); }
  public static void pu(StringBuilder w, ulong v){ w.Append(' ').Append(v.ToString("x")); }
  public static void pf(StringBuilder w, float v){ pu(w,unchecked((uint)BitConverter.SingleToInt32Bits(v))); }
  public static void pd(StringBuilder w, double v){ pu(w,unchecked((ulong)BitConverter.DoubleToInt64Bits(v))); }
  public static void pt(StringBuilder w, bool v){ pu(w,v?1UL:0UL); }
  public static void ps(StringBuilder w, string v){ if(v==null){w.Append(" ?");return;} w.Append(" s").Append(hex(Encoding.UTF8.GetBytes(v))); }
  public static void pb(StringBuilder w, Memory<byte> v){ w.Append(" b").Append(hex(v.Span)); }
  public static void pb(StringBuilder w, byte[] v){ if(v==null){w.Append(" ?");return;} w.Append(" b").Append(hex(v)); }
  public static object get(object o,string n){ return o.GetType().GetField(n,BindingFlags.NonPublic|BindingFlags.Public|BindingFlags.Instance).GetValue(o); }
  public static void set(object o,string n,object v){ o.GetType().GetField(n,BindingFlags.NonPublic|BindingFlags.Public|BindingFlags.Instance).SetValue(o,v); }
}
abstract class Ops { public abstract void nw(); public abstract void put(int i,string t,int way); public abstract void set(string[] t,int way); public abstract byte[] enc(int way); public abstract int into(byte[] b,int st,int way); public abstract int size(); public abstract int dec(byte[] b,int st,int way); public abstract int dsz(byte[] b,int st,int way); public abstract string fact(); public abstract object obj(); public abstract void put(object o); public abstract void dump(StringBuilder w); public abstract void mem(StringBuilder w); }
static class Driver {
  static string one(char op, int way, Ops o, string[] t){
    try {
      var w=new StringBuilder();
      switch(op){
      case 'N': o.nw(); return "ok";
      case 'S': o.set(t,way); return "ok";
      case 'E': { var b=o.enc(way); return b.Length+" "+R.hex(b); }
      case 'I': { var f=R.unhex(t[0]); int st=int.Parse(t[1]), tot=int.Parse(t[2]); var b=new byte[tot]; for(int i=0;i<tot;i++) b[i]=f[i%f.Length]; int n=o.into(b,st,way); return n+" "+R.hex(b); }
      case 'Z': return ""+o.size();
      case 'D': { int st=int.Parse(t[0]); var b=R.unhex(t[1]); int n=o.dec(b,st,way); if(n<0) return "-1"; w.Append(n); o.dump(w); return w.ToString(); }
      case 'A': { var b=R.unhex(t[0]); o.nw(); int n=o.dec(b,0,way); for(int i=0;i<b.Length;i++) b[i]^=0xff; if(n<0) return "-1"; w.Append(n); o.dump(w); return w.ToString(); }
      case 'R': { var b=o.enc(way); o.nw(); int n=o.dec(b,0,way); if(n<0) return "-1"; w.Append(n); o.dump(w); return w.ToString(); }
      case 'L': { int st=int.Parse(t[0]); var b=R.unhex(t[1]); foreach(var q in t[2].Split(',')){ int p=int.Parse(q); var c=new byte[st+p]; Array.Copy(b,c,st+p); w.Append(o.dsz(c,st,way)).Append(' '); } return w.ToString(); }
      case 'G': o.dump(w); return w.ToString();
      case 'W': o.nw(); for(int i=0;i<t.Length;i++) if(t[i]!="-") o.put(i,t[i],way); o.dump(w); return w.ToString();
      case 'P': o.put(int.Parse(t[0]),t[1],way); o.dump(w); return w.ToString();
      case 'F': return o.fact();
      case 'Q': { var x=o.obj(); o.nw(); o.set(t[1..],0); if(t[0]=="1"){ var b=o.enc(0); o.nw(); if(o.dec(b,0,way)<0) return "-1"; } var y=o.obj(); o.put(x);
        return (x.Equals(y)?1:0)+" "+(y.Equals(x)?1:0)+" "+(x.GetHashCode()==y.GetHashCode()?1:0); }
      case 'M': o.mem(w); return w.ToString();
      }
      return "?";
    } catch(Exception e){ return "X "+e.GetType().Name+": "+e.Message.Replace('\n',' ').Replace('\r',' '); }
  }
  public static void Main(string[] a){
    Ops[] tab = new Ops[]{ @TABLE@ };
    var so=new StreamWriter(Console.OpenStandardOutput(), new UTF8Encoding(false)); int ln=0;
    foreach(var line in File.ReadLines(a[0])){ var p=line.Split(' ',StringSplitOptions.RemoveEmptyEntries); if(p.Length<2) continue; var t=new string[p.Length-2]; Array.Copy(p,2,t,0,t.Length);
      so.Write((ln++)+" "+one(p[0][0],p[0].Length>1?p[0][1]-'0':0,tab[int.Parse(p[1])],t)+"\n"); so.Flush(); }
  }
}
'''
    CT = {("int", 8): "sbyte", ("int", 16): "short", ("int", 32): "int", ("int", 64): "long",
          ("uint", 8): "byte", ("uint", 16): "ushort", ("uint", 32): "uint", ("uint", 64): "ulong"}

    def ns(self, pkg):
        return "global::" + ".".join(self.nsmap.get(pkg) or [pascal(x) for x in pkg.split("/")])

    def qual(self, s, k, what, ref):
        pkgs = getattr(s, "enum_pkg" if what == "e" else "struct_pkg", {})
        pkg = pkgs.get(ref, self.pkgs[k])
        return self.ns(pkg) + "." + (s.n.enum(ref) if what == "e" else s.n.struct(ref))

    def ctype(self, s, k, f):
        kk = f["k"]
        if kk == "bool": t = "bool"
        elif kk == "str": t = "string"
        elif kk == "byt": t = "byte[]" if self.memcpy else "Memory<byte>"
        elif kk == "float": t = "float" if f["tw"] == 32 else "double"
        elif kk == "enum": t = self.qual(s, k, "e", f["ref"])
        elif kk == "struct": t = self.qual(s, k, "s", f["ref"])
        else: t = self.CT[(kk, f["tw"])]
        return t + ("[]" if f["len"] else "")

    def getx(self, s, k, base, p):
        e = base
        for name, ix, f in p:
            if self.minimal:
                e = '((%s)R.get(%s,"%s"))' % (self.ctype(s, k, f), e, camel(name))
            else:
                e = e + "." + pascal(name)
            if ix is not None:
                e += "[%d]" % ix
        return e

    def setx(self, s, k, base, p, val):
        name, ix, f = p[-1]
        if ix is not None or not self.minimal:
            return "%s=%s;" % (self.getx(s, k, base, p), val)
        o = self.getx(s, k, base, p[:-1])
        return 'R.set(%s,"%s",(%s)(%s));' % (o, camel(name), self.ctype(s, k, f), val)

    def puts(self, s, k, i, p, v):
        plain = self.setx(s, k, "x", p, v)
        name, ix, f = p[-1]
        if self.minimal or not self.rich or ix is None:
            return plain
        h, n = self.getx(s, k, "x", p[:-1]), pascal(name)
        return "switch((way+%d)%%2){ case 0: %s break; case 1: { var a=(%s)%s.%s.Clone(); a[%d]=%s; %s.%s=a; } break; }" % (i, plain, self.ctype(s, k, f), h, n, ix, v, h, n)

    def emit(self, schemas, pkgs, gendir, drvdir):
        self.pkgs = pkgs
        o = [self.RT.replace("@TABLE@", ", ".join("new O%d()" % k for k in range(len(schemas))))]
        for k, s in enumerate(schemas):
            S = self.qual(s, k, "s", s.root) if hasattr(s, "struct_pkg") else self.ns(pkgs[k]) + "." + s.root_name()
            st, dm = [], []
            for i, p in enumerate(s.leaves()):
                f = p[-1][2]
                e = self.getx(s, k, "x", p)
                kk = f["k"]
                if kk == "str":
                    v = "R.ts(t)"; dm.append("R.ps(w,%s);" % e)
                elif kk == "byt":
                    v = "R.tb(t)"; dm.append("R.pb(w,%s);" % e)
                elif kk == "bool":
                    v = "R.u(t)!=0"; dm.append("R.pt(w,%s);" % e)
                elif kk == "float":
                    c = "f" if f["tw"] == 32 else "d"
                    v = "R.t%s(t)" % c; dm.append("R.p%s(w,%s);" % (c, e))
                elif kk == "enum":
                    v = "(%s)R.u(t)" % self.qual(s, k, "e", f["ref"])
                    dm.append("R.pu(w,unchecked((ulong)%s));" % e)
                else:
                    c = self.CT[(kk, f["tw"])]
                    v = "unchecked((%s)R.u(t))" % c
                    dm.append("R.pu(w,unchecked((ulong)(%s)%s));" % (self.CT[("uint", f["tw"])], e))
                st.append("case %d: %s break;" % (i, self.puts(s, k, i, p, v)))
            shown = lambda e, f: {"bool": "R.pt(w,%s);" % e, "float": "R.p%s(w,%s);" % ("f" if f["tw"] == 32 else "d", e)}.get(
                f["k"], "R.pu(w,unchecked((ulong)(%s)%s));" % (self.CT[("uint", f["tw"])] if f["k"] in ("int", "uint") else "", e))
            o.append("sealed class O%d : Ops {\n  %s x=new %s();" % (k, S, S))
            o.append("  public override void nw(){ x=new %s(); }" % S)
            o.append("  public override void put(int i,string t,int way){ switch(i){ %s } }" % "\n    ".join(st))
            o.append("  public override void set(string[] t,int way){ for(int i=0;i<%d;i++) put(i,t[i],way); }" % len(st))
            o.append('  public override object obj(){ return x; }  public override void put(object o){ x=(%s)o; }  public override string fact(){ var w=new StringBuilder(); %s return %s.Size+" "+(%s.Dynamic?1:0)+w; }' % (S, "".join(shown(S + "." + pascal(n), f) for n, f, _, _ in s.constants()), S, S))
            if self.memcpy:
                o.append("  int encn(byte[] b,int st,int way){ return x.Encode(b,st); }  int decn(byte[] b,int st,int way){ return st==0 && way%2==0 ? x.Decode(b) : x.Decode(b,st); }")
                o.append("  int dszn(byte[] b,int st,int way){ return st==0 && way%%2==0 ? new %s().DecodeSize(b) : new %s().DecodeSize(b,st); }" % (S, S))
            else:
                o.append("  int encn(byte[] b,int st,int way){ return way%3==1 ? x.Encode(new Memory<byte>(b,st,b.Length-st)) : way%3==2 ? x.Encode(new Span<byte>(b,st,b.Length-st)) : x.Encode(b,st); }")
                o.append("  int decn(byte[] b,int st,int way){ return way%3==1 ? x.Decode(new Memory<byte>(b,st,b.Length-st)) : way%3==2 && st==0 ? x.Decode(b) : x.Decode(b,st); }")
                o.append("  int dszn(byte[] b,int st,int way){ var y=new %s(); return way%%3==1 ? y.DecodeSize(new Memory<byte>(b,st,b.Length-st)) : way%%3==2 && st==0 ? y.DecodeSize(b) : y.DecodeSize(b,st); }" % S)
            o.append("  public override byte[] enc(int way){ if(way%2==1){ var b=new byte[x.EncodeSize()]; int n=encn(b,0,way); return n==b.Length?b:b[..n]; } return x.Encode(); }")
            o.append("  public override int into(byte[] b,int st,int way){ return encn(b,st,way); }  public override int size(){ return x.EncodeSize(); }")
            o.append("  public override int dec(byte[] b,int st,int way){ return decn(b,st,way); }  public override int dsz(byte[] b,int st,int way){ return dszn(b,st,way); }")
            o.append("  public override void dump(StringBuilder w){ %s }" % "\n    ".join(dm))
            o.append("  public override void mem(StringBuilder w){ %s }" % "".join("R.pu(w,unchecked((ulong)%s.%s));" % (self.qual(s, k, "e", i), m) for i, m in self.members(s)))
            o.append("}")
        open(os.path.join(drvdir, "Driver.cs"), "w").write("\n".join(o))
        open(os.path.join(drvdir, "driver.runtimeconfig.json"), "w").write(
            '{"runtimeOptions":{"tfm":"net8.0","framework":{"name":"Microsoft.NETCore.App","version":"8.0.0"},"configProperties":{"System.Globalization.Invariant":true,"System.Runtime.TieredPGO":false}}}')

    def build_cmds(self, gendir, drvdir):
        import glob
        srcs = []
        for d, _, fs in os.walk(gendir):
            srcs += [os.path.join(d, x) for x in fs if x.endswith(".cs")]
        csc = sorted(glob.glob("/usr/lib/dotnet/sdk/*/Roslyn/bincore/csc.dll"))[-1]
        refs = sorted(glob.glob("/usr/lib/dotnet/packs/Microsoft.NETCore.App.Ref/*/ref/net*/*.dll"))
        if not refs:
            refs = sorted(glob.glob("/usr/lib/dotnet/shared/Microsoft.NETCore.App/*/*.dll"))
        rsp = os.path.join(drvdir, "args.rsp")
        with open(rsp, "w") as f:
            for r in refs:
                f.write("-r:%s\n" % r)
            for x in [os.path.join(drvdir, "Driver.cs")] + sorted(srcs):
                f.write('"%s"\n' % x)
        return [["dotnet", "exec", csc, "-nologo", "-noconfig", "-nostdlib+", "-target:exe", "-optimize-", "-debug-", "-parallel-", "-warn:0", "-unsafe+", "-langversion:latest",
                 "-out:" + os.path.join(drvdir, "driver.dll"), "@" + rsp]]

    def run_cmd(self, gendir, drvdir):
        return ["dotnet", "exec", "--runtimeconfig", os.path.join(drvdir, "driver.runtimeconfig.json"), os.path.join(drvdir, "driver.dll")]


# ---------------------------------------------------------------- Python
class Python(Target):
    name = "py"
    ext = "_bb.py"
    flag = "py"
    compiled = False
    RT = r'''
import sys, struct
@IMPORTS@
def u(s): return int(s,16)
def sg(v,w): return v-(1<<w) if v>>(w-1) else v
def tf(s): return struct.unpack('<f',struct.pack('<I',u(s)))[0]
def td(s): return struct.unpack('<d',struct.pack('<Q',u(s)))[0]
def ts(s): return bytes.fromhex(s[1:]).decode('utf-8')
def tb(s): return bytes.fromhex(s[1:])
def pf(v): return '%x'%struct.unpack('<I',struct.pack('<f',v))[0]
def pd(v): return '%x'%struct.unpack('<Q',struct.pack('<d',v))[0]
def ps(v): return 's'+v.encode('utf-8').hex()
def pb(v): return 'b'+bytes(v).hex()
def pe(v): return '?' if v is None else '%x'%v.value
def pi(v,w):
    if not isinstance(v,int): return '!'+repr(v)
    return '%x'%(v&((1<<w)-1))
def ui(v,w):
    if isinstance(v,bool) or not isinstance(v,int) or not 0<=v<(1<<w): return '!'+repr(v)
    return '%x'%v
def si(v,w):
    if isinstance(v,bool) or not isinstance(v,int) or not -(1<<(w-1))<=v<(1<<(w-1)): return '!'+repr(v)
    return '%x'%(v&((1<<w)-1))
def pt(v):
    if v is True: return '1'
    if v is False: return '0'
    return '!'+repr(v)
def unhex(s): return bytes.fromhex(s.lstrip('-'))
'''
    LOOP = r'''
def view(b,way): return bytes(b) if way%3==0 else bytearray(b) if way%3==1 else memoryview(b'zz\0\x81'+bytes(b)+b'\x01\0z')[4:4+len(b)]
def one(op,way,k,t):
    o=objs[k]
    if op=='N': objs[k]=classes[k](); return 'ok'
    if op=='S':
        for f,x in zip(putters[k],t): f(o,x,way)
        return 'ok'
    if op=='W':
        o=objs[k]=classes[k]()
        for f,x in zip(putters[k],t):
            if x!='-': f(o,x,way)
        return ' '.join(dumpers[k](o))
    if op=='P': i=int(t[0]); putters[k][i](o,t[1],way); return ' '.join(dumpers[k](o))
    if op=='F': return '%d %d'%(classes[k].size(),classes[k].dynamic())
    if op=='E':
        if way%2:
            b=bytearray(o.encode_size()); n=o.encode(b if way%3 else memoryview(b)); b=b[:n]
        else: b=o.encode()
        return '%d %s'%(len(b),bytes(b).hex())
    if op=='I':
        f=unhex(t[0]); st=int(t[1]); tot=int(t[2]); b=bytearray(f[i%len(f)] for i in range(tot))
        n=o.encode(memoryview(b)[st:]) if st or way%2 else o.encode(b)
        return '%d %s'%(n,bytes(b).hex())
    if op=='Z': return str(o.encode_size())
    if op=='D':
        st=int(t[0]); b=unhex(t[1])
        ok,n=o.decode(memoryview(b)[st:] if way==5 else view(b[st:],way))
        if not ok: return '-1'
        return ' '.join([str(n)]+dumpers[k](o))
    if op=='A':
        d=bytearray(unhex(t[0])); o=objs[k]=classes[k](); ok,n=o.decode(memoryview(d) if way%2 else d)
        for i in range(len(d)): d[i]^=0xff
        if not ok: return '-1'
        return ' '.join([str(n)]+dumpers[k](o))
    if op=='R':
        b=o.encode(); o=objs[k]=classes[k](); ok,n=o.decode(b)
        if not ok: return '-1'
        return ' '.join([str(n)]+dumpers[k](o))
    if op=='L':
        st=int(t[0]); b=unhex(t[1])
        return ' '.join(str(classes[k]().decode_size(view(b[st:st+int(p)],way))) for p in t[2].split(','))
    if op=='G': return ' '.join(dumpers[k](o))
    if op=='M': return ' '.join('%x'%e[m].value for e,m in members[k]())
    return '?'
def main():
    out=sys.stdout
    for ln,line in enumerate(open(sys.argv[1])):
        p=line.split()
        try: r=one(p[0][0],int(p[0][1:] or 0),int(p[1]),p[2:])
        except Exception as e: r='X %s: %s'%(type(e).__name__,str(e).replace('\n',' '))
        out.write('%d %s\n'%(ln,r)); out.flush()
main()
'''

    def lv(self, base, p):
        e = base
        for name, ix, f in p:
            e += "." + ("_" if self.minimal else "") + name + ("[%d]" % ix if ix is not None else "")
        return e

    def modname(self, pkg):
        return self.unit(pkg).replace("/", ".") + "_bb"

    def emit(self, schemas, pkgs, gendir, drvdir):
        mods = sorted(set(pkgs) | {p for s in schemas for p in getattr(s, "enum_pkg", {}).values()})
        names = {m: "m%d" % i for i, m in enumerate(mods)}
        o = ["import sys; sys.path.insert(0, %r); sys.dont_write_bytecode = True" % gendir,
             self.RT.replace("@IMPORTS@", "\n".join("import importlib; %s = importlib.import_module(%r)" % (names[m], self.modname(m)) for m in mods))]
        for k, s in enumerate(schemas):
            st, dm = [], []
            for i, p in enumerate(s.leaves()):
                f = p[-1][2]
                e = self.lv("o", p)
                kk = f["k"]
                if kk == "str":
                    v = "ts(t)"; dm.append("ps(%s)" % e)
                elif kk == "byt":
                    v = "tb(t)"; dm.append("pb(%s)" % e)
                elif kk == "bool":
                    v = "u(t)!=0"; dm.append("pt(%s)" % e)
                elif kk == "float":
                    c = "f" if f["tw"] == 32 else "d"
                    v = "t%s(t)" % c; dm.append("p%s(%s)" % (c, e))
                elif kk == "enum":
                    m = names[getattr(s, "enum_pkg", {}).get(f["ref"], pkgs[k])]
                    v = "%s.%s(u(t))" % (m, s.n.enum(f["ref"])); dm.append("pe(%s)" % e)
                elif kk == "int":
                    v = "sg(u(t),%d)" % f["tw"]; dm.append("si(%s,%d)" % (e, f["tw"]))
                else:
                    v = "u(t)"; dm.append("ui(%s,%d)" % (e, f["tw"]))
                q = "def put%d_%d(o,t,way):\n    %s=%s" % (k, i, e, v)
                name, ix, _ = p[-1]
                if ix is not None and self.rich and not self.minimal:
                    h = self.lv("o", p[:-1])
                    q = "def put%d_%d(o,t,way):\n    if way%%2: a=list(%s.%s); a[%d]=%s; %s.%s=a\n    else: %s=%s" % (k, i, h, name, ix, v, h, name, e, v)
                o.append(q)
                st.append("put%d_%d" % (k, i))
            o.append("put%d=[%s]" % (k, ",".join(st)))
            o.append("def dump%d(o):\n    return [%s]" % (k, ",\n      ".join(dm)))
        o.append("members=[%s]" % ",\n".join("lambda: [%s]" % ",".join("(%s.%s,%r)" % (names[getattr(s, "enum_pkg", {}).get(i, pkgs[k])], s.n.enum(i), m) for i, m in self.members(s))
                                            for k, s in enumerate(schemas)))
        o.append("classes=[%s]" % ",".join("%s.%s" % (names[pkgs[k]], s.root_name()) for k, s in enumerate(schemas)))
        o.append("objs=[c() for c in classes]")
        o.append("putters=[%s]" % ",".join("put%d" % k for k in range(len(schemas))))
        o.append("dumpers=[%s]" % ",".join("dump%d" % k for k in range(len(schemas))))
        o.append(self.LOOP)
        open(os.path.join(drvdir, "driver.py"), "w").write("\n".join(o))

    def run_cmd(self, gendir, drvdir):
        return ["python3", "-B", os.path.join(drvdir, "driver.py")]


# ---------------------------------------------------------------- JavaScript
class Js(Target):
    compiled = False
    esm = False
    RT = r'''
const u=(s)=>BigInt('0x'+s);
const fb=new DataView(new ArrayBuffer(8));
const tf=(s)=>{ fb.setUint32(0,Number(u(s))); return fb.getFloat32(0); };
const td=(s)=>{ fb.setBigUint64(0,u(s)); return fb.getFloat64(0); };
const unhex=(s)=>{ s=s.replace(/^-/,''); const b=new Uint8Array(s.length/2); for(let i=0;i<b.length;i++) b[i]=parseInt(s.substr(2*i,2),16); return b; };
const hex=(b)=>Buffer.from(b).toString('hex');
const ts=(s)=>Buffer.from(unhex(s.slice(1))).toString('utf8');
const tb=(s)=>unhex(s.slice(1));
const pf=(v)=>{ fb.setFloat32(0,v); return fb.getUint32(0).toString(16); };
const pd=(v)=>{ fb.setFloat64(0,v); return fb.getBigUint64(0).toString(16); };
const ps=(v)=>typeof v==='string'?'s'+Buffer.from(v,'utf8').toString('hex'):'!'+v;
const pb=(v)=>'b'+hex(v);
const pt=(v)=>v===true?'1':v===false?'0':'!'+String(v);
const num=(v,w,sg)=>{
  if(w===64){ if(typeof v!=='bigint') return '!'+typeof v+String(v); const lo=sg?-(1n<<63n):0n, hi=sg?(1n<<63n)-1n:(1n<<64n)-1n; if(v<lo||v>hi) return '!'+v; return BigInt.asUintN(64,v).toString(16); }
  if(typeof v!=='number'||!Number.isInteger(v)) return '!'+typeof v+String(v); const lo=sg?-(2**(w-1)):0, hi=sg?2**(w-1)-1:2**w-1; if(v<lo||v>hi) return '!'+v; return (v<0?v+2**w:v).toString(16); };
const sn=(s,w)=>{ let v=u(s); v=BigInt.asIntN(w,v); return w===64?v:Number(v); };
const un=(s,w)=>{ let v=u(s); return w===64?v:Number(v); };
let turn=0;  // an enum may be set to the name or to the number of a member: take turns
const te=(s,E)=>{ const v=u(s); const n=E[v]; if(typeof n==='string' && (turn++)%2===0) return n; return (typeof Object.values(E).find(x=>typeof x==='bigint'))==='bigint'?v:Number(v); };
const pe=(v,E)=>{ if(typeof v==='number'||typeof v==='bigint') return v.toString(16); if(typeof v==='string'&&v in E) return BigInt(E[v]).toString(16); return '?'; };
function enc(C,o,way){
  switch(way){
  case 1: return C.encode(o);
  case 2: return o.encode();
  case 3: { const b=[]; const n=C.encode(o,b); return b.slice(0,n); }
  case 4: { const b=new Uint8Array(o.encode_size()); const n=o.encode(b); return b.subarray(0,n); }
  default: { const b=new Uint8Array(C.encode_size(o)); const n=C.encode(o,b,0); return b.subarray(0,n); }
  }
}
function inside(b){ const w=new Uint8Array(b.length+8); w.set([1,0,129,122],0); w.set(b,4); w.set([1,0,129,122],4+b.length); return w.subarray(4,4+b.length); }
function dec(C,o,b,st,way){
  switch(way){
  case 1: return o.decode(b,st);
  case 2: return C.decode(o,Array.from(b),st);
  case 3: return C.decode(o,Buffer.from(b),st);
  case 4: return o.decode(b.subarray(st));
  case 5: return C.decode(o,inside(b),st);
  default: return C.decode(o,b,st);
  }
}
function dsz(C,b,st,way){
  switch(way){
  case 1: return C.create().decode_size(b,st);
  case 2: return C.decode_size(Array.from(b),st);
  case 3: return C.decode_size(Buffer.from(b),st);
  case 4: return C.decode_size(b.subarray(st));
  case 5: return C.decode_size(inside(b),st);
  default: return C.decode_size(b,st);
  }
}
function one(op,way,k,t){
  let o=objs[k];
  const C=classes[k];
  switch(op){
  case 'N': objs[k]=C.create(); return 'ok';
  case 'S': if(way===4){ const q=C.create(); putters[k].forEach((f,i)=>f(q,t[i])); objs[k]=C.create(Object.assign({},q)); } else putters[k].forEach((f,i)=>f(o,t[i])); return 'ok';
  case 'W': { o=objs[k]=C.create(); putters[k].forEach((f,i)=>{ if(t[i]!=='-') f(o,t[i]); }); return dumpers[k](o).join(' '); }
  case 'P': putters[k][+t[0]](o,t[1]); return dumpers[k](o).join(' ');
  case 'F': return [C.size(),C.dynamic()===true?1:C.dynamic()===false?0:'?'].concat(consts[k](C.create())).join(' ');
  case 'E': { const b=enc(C,o,way); return b.length+' '+hex(b); }
  case 'I': { const f=unhex(t[0]); const st=+t[1], tot=+t[2]; const b=new Uint8Array(tot); for(let i=0;i<tot;i++) b[i]=f[i%f.length]; const n=way%2?o.encode(b,st):way===4?C.encode(o,b.subarray(st)):C.encode(o,b,st); return n+' '+hex(b); }
  case 'Z': return ''+(way%2?o.encode_size():C.encode_size(o));
  case 'D': { const st=+t[0]; const b=unhex(t[1]); const n=dec(C,o,b,st,way); if(n<0) return '-1'; return [n].concat(dumpers[k](o)).join(' '); }
  case 'A': { const b=unhex(t[0]); o=objs[k]=C.create(); const n=way%2?o.decode(b):C.decode(o,b,0); for(let i=0;i<b.length;i++) b[i]^=0xff; if(n<0) return '-1'; return [n].concat(dumpers[k](o)).join(' '); }
  case 'R': { const b=enc(C,o,way); o=objs[k]=C.create(); const n=dec(C,o,b,0,way); if(n<0) return '-1'; return [n].concat(dumpers[k](o)).join(' '); }
  case 'L': { const st=+t[0]; const b=unhex(t[1]); return t[2].split(',').map(p=>dsz(C,b.slice(0,st+ +p),st,way)).join(' '); }
  case 'G': return dumpers[k](o).join(' ');
  case 'M': return members[k]().map(v=>typeof v==='number'||typeof v==='bigint'?v.toString(16):'!'+String(v)).join(' ');
  }
  return '?';
}
function main(){
  const lines=fs.readFileSync(process.argv[2],'utf8').split('\n'); let ln=0;
  for(const line of lines){ if(!line.trim()) continue; const p=line.trim().split(/ +/); let r;
    try { r=one(p[0][0],+(p[0][1]||0),+p[1],p.slice(2)); } catch(e){ r='X '+String(e).replace(/\n/g,' '); }
    fs.writeSync(1,(ln++)+' '+r+'\n'); }
}
main();
'''

    def lv(self, base, p):
        e = base
        for name, ix, f in p:
            e += "." + camel(name) + ("[%d]" % ix if ix is not None else "")
        return e

    def emit(self, schemas, pkgs, gendir, drvdir):
        mods = sorted(set(pkgs) | {p for s in schemas for p in getattr(s, "enum_pkg", {}).values()})
        names = {m: "m%d" % i for i, m in enumerate(mods)}
        o = []
        if self.esm:
            o.append("import fs from 'fs';")
            for m in mods:
                o.append("import _%s from %r; const %s=_%s%s;" % (names[m], os.path.join(gendir, self.unit(m) + ".bb.js"), names[m], names[m],
                                                            "." + m.split("/")[-1] if self.single else ""))
        else:
            o.append("const fs=require('fs');")
            for m in mods:
                o.append("const %s=require(%r)%s;" % (names[m], os.path.join(gendir, self.unit(m) + ".bb.js"), "".join("." + x for x in m.split("/"))))
        for k, s in enumerate(schemas):
            st, dm = [], []
            arrays = set()
            for i, p in enumerate(s.leaves()):
                f = p[-1][2]
                e = self.lv("o", p)
                t = "t"
                kk = f["k"]
                if kk == "str":
                    st.append("(o,t)=>{ %s=ts(%s); }" % (e, t)); dm.append("ps(%s)" % e)
                elif kk == "byt":
                    st.append("(o,t)=>{ %s=tb(%s); }" % (e, t)); dm.append("pb(%s)" % e)
                elif kk == "bool":
                    st.append("(o,t)=>{ %s=u(%s)!==0n; }" % (e, t)); dm.append("pt(%s)" % e)
                elif kk == "float":
                    c = "f" if f["tw"] == 32 else "d"
                    st.append("(o,t)=>{ %s=t%s(%s); }" % (e, c, t)); dm.append("p%s(%s)" % (c, e))
                elif kk == "enum":
                    m = names[getattr(s, "enum_pkg", {}).get(f["ref"], pkgs[k])]
                    E = "%s.%s" % (m, s.n.enum(f["ref"]))
                    st.append("(o,t)=>{ %s=te(%s,%s); }" % (e, t, E)); dm.append("pe(%s,%s)" % (e, E))
                else:
                    st.append("(o,t)=>{ %s=%s(%s,%d); }" % (e, "sn" if kk == "int" else "un", t, f["tw"]))
                    dm.append("num(%s,%d,%s)" % (e, f["tw"], "true" if kk == "int" else "false"))
            o.append("const put%d=[%s];" % (k, ",\n ".join(st)))
            o.append("function dump%d(o){ return [%s]; }" % (k, ",\n ".join(dm)))
        o.append("const members=[%s];" % ",\n".join("()=>[%s]" % ",".join("%s.%s.%s" % (names[getattr(s, "enum_pkg", {}).get(i, pkgs[k])], s.n.enum(i), m) for i, m in self.members(s))
                                                   for k, s in enumerate(schemas)))
        shown = lambda n, f: {"bool": "pt(o.%s)" % n, "float": "p%s(o.%s)" % ("f" if f["tw"] == 32 else "d", n)}.get(
            f["k"], "(v=>typeof v==='number'||typeof v==='bigint'?BigInt.asUintN(%d,BigInt(v)).toString(16):'!'+v)(o.%s)" % (f["tw"], n))
        o.append("const consts=[%s];" % ",\n".join("(o)=>[%s]" % ",".join(shown(camel(n), f) for n, f, _, _ in s.constants()) for s in schemas))
        o.append("const classes=[%s];" % ",".join("%s.%s" % (names[pkgs[k]], s.root_name()) for k, s in enumerate(schemas)))
        o.append("const objs=classes.map(c=>c.create());")
        o.append("const putters=[%s];" % ",".join("put%d" % k for k in range(len(schemas))))
        o.append("const dumpers=[%s];" % ",".join("dump%d" % k for k in range(len(schemas))))
        o.append(self.RT)
        open(os.path.join(drvdir, "driver.mjs" if self.esm else "driver.cjs"), "w").write("\n".join(o))
        open(os.path.join(gendir, "package.json"), "w").write('{"type":"%s"}' % ("module" if self.esm else "commonjs"))

    def run_cmd(self, gendir, drvdir):
        return ["node", os.path.join(drvdir, "driver.mjs" if self.esm else "driver.cjs")]


class Cjs(Js):
    name = "cjs"
    ext = ".bb.js"
    flag = "cjs"


class Esm(Js):
    name = "esm"
    ext = ".bb.js"
    flag = "esm"
    esm = True


TARGETS = {t.name: t for t in (C, Cpp, CSharp, Cjs, Esm, Go, Java, Python)}
ALL = ["c", "cpp", "cs", "cjs", "esm", "go", "java", "py"]
