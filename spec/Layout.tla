------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Which definitions the compiler accepts (compiler/proto_visitor.go).     *)
(*                                                                         *)
(* A file is a sequence of enums and structs.  The machine below reads it  *)
(* construct by construct the way the compiler does, keeping the bit       *)
(* offset, the names taken so far and the types defined so far, and judges *)
(* each construct when it meets it.  The constructs are chosen at random   *)
(* (mostly well-formed, each kind of mistake now and then), or, in MODE    *)
(* "grid", enumerated: every element type x array length x declared size x *)
(* bit offset.  The invariants state what an accepted definition           *)
(* guarantees.                                                             *)
(*                                                                         *)
(* Names are numbers; top-level names, inner structs and enum members are  *)
(* capitalised and share one name space, fields and methods are not and    *)
(* share one name space per struct.                                        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

MODE  == IOEnv.MODE
OUT   == IOEnv.OUT
NDEFS == atoi(IOEnv.NDEFS)
RATE  == atoi(IOEnv.RATE)      \* how often a mistake is made, in percent of the base chances

NoSize == -1
Huge   == -2                   \* 2^61 + 1 (bytes, elements): no such size
Dyn    == -1

Basics == <<"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64">>
Width  == <<8, 8, 16, 32, 64, 8, 16, 32, 64, 32, 64>>
IsBool(b)  == b = 1
IsInt(b)   == b \in 2..9
IsSint(b)  == b \in 2..5
IsFloat(b) == b \in 10..11

Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
NoDup(s) == Cardinality(Range(s)) = Len(s)

VARIABLES defs,      \* finished definitions, each with its verdict
          cur,       \* the struct being read, or <<>>
          env,       \* types defined so far: name -> [k, bits, flat, scope]
          mems,      \* enum members defined so far: name -> number
          taken,     \* all global names so far
          doubt,     \* names whose definition was faulty
          nm, fm,    \* next fresh global and field name
          off, dyn, flat, names, faults, dep,  \* state inside the struct
          plan,      \* grid: the fields still to be read
          phase, want
vars == <<defs, cur, env, mems, taken, doubt, nm, fm, off, dyn, flat, names, faults, dep, plan, phase, want>>

-----------------------------------------------------------------------------
(* Judging types and fields.  A judgement j: ok, dep (only in doubt because  *)
(* of an earlier faulty definition), bits (Dyn if variable), must (start on  *)
(* a byte), flat (the parts it is made of, for embedding), names (added to   *)
(* the scope), globals (added to the global names).                          *)

Bad(d) == [ok |-> FALSE, dep |-> d, bits |-> 0, must |-> FALSE, k |-> "none", flat |-> <<>>, names |-> <<>>]
Good(k, bits, must, fl, ns) == [ok |-> TRUE, dep |-> FALSE, bits |-> bits, must |-> must, k |-> k, flat |-> fl, names |-> ns]
SizeOk(s) == s > 0
Part(bits, must) == [bits |-> bits, must |-> must]

(* an inner struct: its fields have basic types, sizes and names only *)
InnerBits(f) == IF f.size = NoSize THEN Width[f.b] ELSE f.size
InnerJ(d) ==
    LET total == Sum([i \in DOMAIN d.fields |-> InnerBits(d.fields[i])])
        fine == /\ ~d.bad /\ d.name \notin taken
                /\ \A i \in DOMAIN d.fields : d.fields[i].size = NoSize \/ (d.fields[i].size > 0 /\ d.fields[i].size <= Width[d.fields[i].b])
                /\ NoDup([i \in DOMAIN d.fields |-> d.fields[i].name])
                /\ d.fields # <<>> /\ total % 8 = 0
                /\ (d.size = NoSize \/ d.size = total) IN
    IF fine THEN Good("struct", total, TRUE, [i \in DOMAIN d.fields |-> Part(InnerBits(d.fields[i]), FALSE)], [i \in DOMAIN d.fields |-> d.fields[i].name])
    ELSE Bad(d.name \in doubt)

ElemJ(t) ==
    CASE t.base = "basic"  -> Good("basic", Width[t.b], FALSE, <<>>, <<>>)
      [] t.base = "string" -> Good("string", Dyn, TRUE, <<>>, <<>>)
      [] t.base = "bytes"  -> Good("bytes", Dyn, TRUE, <<>>, <<>>)
      [] t.base = "inner"  -> InnerJ(t.def[1])
      [] t.base \in {"ident", "struct", "enum"} ->
           IF t.name \notin DOMAIN env THEN Bad(t.name \in doubt)
           ELSE LET e == env[t.name] IN
                IF t.base # "ident" /\ t.base # e.k THEN Bad(FALSE)
                ELSE Good(e.k, e.bits, e.k = "struct", e.flat, e.scope)

TypeJ(t) ==
    LET e == ElemJ(t) IN
    IF ~e.ok \/ t.len = NoSize THEN e
    ELSE IF t.len <= 0 THEN Bad(FALSE)
    ELSE Good("array", IF e.bits = Dyn THEN Dyn ELSE e.bits * t.len, e.must, <<>>, <<>>)

(* the size a field takes, given its type and declared size *)
FieldBits(t, j, s) ==
    IF s = NoSize THEN j.bits
    ELSE IF ~SizeOk(s) \/ j.bits = Dyn \/ s > j.bits THEN 0
    ELSE IF t.len # NoSize /\ s % t.len # 0 THEN 0
    ELSE IF ElemJ(t).k = "struct" /\ s # j.bits THEN 0
    ELSE s

LitOk(b, l) == CASE l.kind = "int"    -> IsInt(b)
                 [] l.kind = "neg"    -> IsSint(b)
                 [] l.kind = "bool"   -> IsBool(b)
                 [] l.kind = "float"  -> IsFloat(b)
                 [] l.kind = "string" -> FALSE
                 [] l.kind = "member" -> l.name \in DOMAIN mems /\ IsInt(b)
                 [] l.kind = "typename" -> FALSE
LitDep(l) == l.kind \in {"member", "typename"} /\ l.name \in doubt

(* methods: one getter and one setter per name, of the same type *)
MethodsOk(f) ==
    /\ f.t.base = "basic" /\ f.t.len = NoSize
    /\ \A i \in DOMAIN f.meth : ~f.meth[i].bad
    /\ \A i, j \in DOMAIN f.meth : (i < j /\ f.meth[i].name = f.meth[j].name) =>
          f.meth[i].set # f.meth[j].set /\ f.meth[i].b = f.meth[j].b
MethodNames(f) == LET first(i) == \A j \in 1..(i - 1) : f.meth[j].name # f.meth[i].name
                      ix == SelectSeq([i \in 1..Len(f.meth) |-> i], first) IN
                  [i \in DOMAIN ix |-> f.meth[ix[i]].name]

FieldJ0(f) ==
    CASE f.kind = "void" -> IF SizeOk(f.size) THEN Good("void", f.size, FALSE, <<Part(f.size, FALSE)>>, <<>>) ELSE Bad(FALSE)
      [] f.kind = "const" ->
           LET bits == FieldBits(f.t, ElemJ(f.t), f.size) IN
           IF bits = 0 \/ f.bad \/ ~LitOk(f.t.b, f.lit) THEN Bad(LitDep(f.lit) /\ bits # 0 /\ ~f.bad)
           ELSE Good("const", bits, FALSE, <<Part(bits, FALSE)>>, IF f.name = 0 THEN <<>> ELSE <<f.name>>)
      [] f.kind = "embed" ->
           LET j == TypeJ(f.t) IN
           IF ~j.ok THEN j
           ELSE IF j.k # "struct" THEN Bad(FALSE)
           ELSE Good("embed", j.bits, FALSE, j.flat,
                     <<-(IF f.t.base = "inner" THEN f.t.def[1].name ELSE f.t.name)>> \o j.names)
      [] f.kind = "normal" ->
           LET j == TypeJ(f.t)
               bits == FieldBits(f.t, j, f.size) IN
           IF ~j.ok THEN j
           ELSE IF bits = 0 \/ f.bad \/ (f.hasm /\ ~MethodsOk(f)) THEN Bad(FALSE)
           ELSE Good("normal", bits, j.must, <<Part(bits, j.must)>>, <<f.name>> \o (IF f.hasm THEN MethodNames(f) ELSE <<>>))

(* options of a field: order is "big" or "little", others are unknown and
   only warned about; none is given twice *)
OptName(o) == IF o \in {"odd", "odd2"} THEN o ELSE "order"
OptsOk(os) == /\ \A i \in DOMAIN os : os[i] \in {"big", "little", "odd", "odd2"}
              /\ NoDup([i \in DOMAIN os |-> OptName(os[i])])
FieldJ(f) == LET j == FieldJ0(f) IN IF OptsOk(f.opts) THEN j ELSE Bad(j.dep)

Globals(f) == IF f.kind \in {"normal", "embed"} /\ f.t.base = "inner" THEN {f.t.def[1].name} ELSE {}

(* parts starting at bit o: does every part that must start on a byte do so? *)
RECURSIVE Aligned(_, _)
Aligned(ps, o) == IF ps = <<>> THEN TRUE
                  ELSE (~ps[1].must \/ o % 8 = 0) /\ Aligned(Tail(ps), o + (IF ps[1].bits = Dyn THEN 0 ELSE ps[1].bits))
PartsBits(ps) == Sum([i \in DOMAIN ps |-> IF ps[i].bits = Dyn THEN 0 ELSE ps[i].bits])
PartsDyn(ps)  == \E i \in DOMAIN ps : ps[i].bits = Dyn

-----------------------------------------------------------------------------
(* Drawing *)
Chance(p) == {RandomElement(1..10000) <= p * RATE}
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
One(S, z) == IF S = {} THEN z ELSE RandomElement(S)
T(base, b, name, len, def) == [base |-> base, b |-> b, name |-> name, len |-> len, def |-> def]
NoLit == [kind |-> "none", name |-> 0, b |-> 0]
F(kind, t, name, bad, size, lit, hasm, meth) ==
    [kind |-> kind, t |-> t, name |-> name, bad |-> bad, size |-> size, lit |-> lit, hasm |-> hasm, meth |-> meth, opts |-> <<>>]
VoidF(n) == F("void", T("basic", 1, 0, NoSize, <<>>), 0, FALSE, n, NoLit, FALSE, <<>>)
NewStruct(name, bad, size) == [kind |-> "struct", name |-> name, bad |-> bad, size |-> size, fields |-> <<>>, mem |-> <<>>, rel |-> "none"]

Reset == off' = 0 /\ dyn' = FALSE /\ flat' = <<>> /\ names' = <<>> /\ faults' = {} /\ dep' = FALSE
Keep  == UNCHANGED <<off, dyn, flat, names, faults, dep>>

Extend(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

(* --- enums are read in one step *)
EnumFaults(d) ==
    LET headBad == d.bad \/ d.name \in taken \/ ~SizeOk(d.size) \/ d.size > 64
        before(i) == {d.mem[j].name : j \in 1..(i - 1)}
        RECURSIVE val(_)
        val(i) == CASE d.mem[i].kind = "auto" -> (IF i = 1 THEN 0 ELSE val(i - 1) + 1)
                    [] d.mem[i].kind = "int" -> d.mem[i].v
                    [] d.mem[i].kind = "ref" /\ d.mem[i].v \in DOMAIN mems -> mems[d.mem[i].v]
                    [] OTHER -> 0
        fits(v) == d.size > 30 \/ v < 2 ^ d.size
        memOwn(i) == d.mem[i].bad \/ d.mem[i].kind \in {"neg", "float", "bool", "string"}
                     \/ (d.mem[i].kind = "ref" /\ d.mem[i].v \notin DOMAIN mems)
        memDup(i) == d.mem[i].name \in taken \cup before(i) \cup {d.name}
        memDep(i) == (d.mem[i].kind = "ref" /\ d.mem[i].v \in doubt) \/ d.mem[i].name \in doubt
        ix == DOMAIN d.mem
        ownBad == {i \in ix : memOwn(i)}
        fitBad == IF ownBad = {} /\ ~headBad THEN {i \in ix : ~fits(val(i))} ELSE {} IN
    [at  |-> (IF headBad \/ d.mem = <<>> THEN {0} ELSE {}) \cup ownBad \cup {i \in ix : memDup(i)} \cup fitBad,
     dep |-> d.name \in doubt \/ \E i \in ix : memDep(i),
     vals |-> [i \in ix |-> IF ownBad = {} THEN val(i) ELSE 0]]

DrawEnum ==
    /\ phase = "def" /\ cur = <<>> /\ Len(defs) < NDEFS
    /\ \E dupName \in Chance(4) : \E bad \in Chance(2) : \E sz \in {RandomElement({1, 2, 3, 4, 5, 7, 8, 8, 8, 12, 16, 32, 40, 64})} :
       \E zero \in Chance(3) : \E big \in Chance(3) : \E n \in {RandomElement(1..4)} : \E empty \in Chance(3) :
       \E k1 \in {RandomElement(1..1000)} : \E k2 \in {RandomElement(1..1000)} : \E k3 \in {RandomElement(1..1000)} : \E k4 \in {RandomElement(1..1000)} : \E v1 \in {RandomElement(0..9)} : \E v2 \in {RandomElement(0..9)} : \E v3 \in {RandomElement(0..9)} : \E v4 \in {RandomElement(0..9)} :
       \E dm \in Chance(5) : \E bm \in Chance(3) : \E over \in Chance(5) : \E x \in {RandomElement(1..nm)} :
       \E r \in {One(DOMAIN mems, 0)} :
       \E bigsz \in {RandomElement({65, 72, 128, Huge})} :
       LET size == IF zero THEN 0 ELSE IF big THEN bigsz ELSE sz
           ks == <<k1, k2, k3, k4>>
           vs == <<v1, v2, v3, v4>>
           lim == IF sz < 6 THEN 2 ^ sz ELSE 60
           m(i) == LET q == ks[i]
                       kind == CASE q <= 500 -> "auto" [] q > 500 /\ q <= 850 -> "int" [] q > 850 /\ q <= 950 /\ r # 0 -> "ref"
                                 [] q > 950 /\ q <= 950 + (10 * RATE) \div 100 -> "neg"
                                 [] q > 960 /\ q <= 960 + (6 * RATE) \div 100 -> "float"
                                 [] q > 970 /\ q <= 970 + (5 * RATE) \div 100 -> "bool"
                                 [] q > 980 /\ q <= 980 + (5 * RATE) \div 100 -> "string"
                                 [] OTHER -> "auto" IN
                   [name |-> IF dm /\ i = n THEN x ELSE nm + i, bad |-> bm /\ i = 1,
                    kind |-> kind, v |-> IF kind = "ref" THEN r ELSE IF over /\ sz <= 16 THEN 2 ^ sz + vs[i] ELSE (vs[i] * 7) % lim]
           d == [kind |-> "enum", name |-> IF dupName THEN x ELSE nm, bad |-> bad, size |-> size, fields |-> <<>>,
                 mem |-> IF empty THEN <<>> ELSE [i \in 1..n |-> m(i)], rel |-> "none"]
           j == EnumFaults(d)
           all == {d.name} \cup {d.mem[i].name : i \in DOMAIN d.mem} IN
       /\ defs' = Append(defs, [def |-> d, at |-> j.at, dep |-> j.dep, bits |-> size, flat |-> <<>>, names |-> <<>>])
       /\ taken' = taken \cup all
       /\ IF j.at = {} THEN /\ env' = Extend(env, d.name, [k |-> "enum", bits |-> size, flat |-> <<>>, scope |-> <<>>])
                            /\ mems' = [y \in DOMAIN mems \cup {d.mem[i].name : i \in DOMAIN d.mem} |->
                                          IF y \in DOMAIN mems THEN mems[y] ELSE LET i == CHOOSE i \in DOMAIN d.mem : d.mem[i].name = y IN j.vals[i]]
                            /\ UNCHANGED doubt
          ELSE doubt' = doubt \cup all /\ UNCHANGED <<env, mems>>
       /\ nm' = nm + 6
    /\ UNCHANGED <<cur, fm, phase, want, plan>> /\ Keep

(* --- structs *)
Rels == <<"none", "none", "none", "none", "right", "right", "right">>
BeginStruct ==
    /\ phase = "def" /\ cur = <<>> /\ Len(defs) < NDEFS
    /\ \E dup \in Chance(4) : \E bad \in Chance(2) : \E x \in {RandomElement(1..nm)} : \E sz \in Chance(5) :
       \E i \in {RandomElement(DOMAIN Rels)} : \E r \in {RandomElement({"zero", "wrong", "huge"})} :
       LET name == IF dup THEN x ELSE nm IN
       /\ cur' = <<[NewStruct(name, bad, NoSize) EXCEPT !.rel = IF sz THEN r ELSE Rels[i]]>>
       /\ taken' = taken \cup {name}
       /\ off' = 0 /\ dyn' = FALSE /\ flat' = <<>> /\ names' = <<>>
       /\ faults' = (IF bad \/ name \in taken THEN {0} ELSE {}) /\ dep' = (name \in doubt)
    /\ nm' = nm + 1 /\ \E w \in {RandomElement(0..24)} : want' = (IF w = 0 THEN 0 ELSE 1 + (w % 6))
    /\ UNCHANGED <<defs, env, mems, doubt, fm, phase, plan>>

(* the types drawn; a misaligned field is usually padded first *)
Types(q, b, nested, en) ==
    CASE q <= 45 -> T("basic", b, 0, NoSize, <<>>)
      [] q > 45 /\ q <= 53 -> T("string", 1, 0, NoSize, <<>>)
      [] q > 53 /\ q <= 60 -> T("bytes", 1, 0, NoSize, <<>>)
      [] q > 60 /\ q <= 90 -> T(IF q % 4 = 0 THEN "struct" ELSE IF q % 4 = 1 THEN "enum" ELSE "ident", 1, en, NoSize, <<>>)
      [] OTHER -> T("inner", 1, 0, NoSize, nested)

FixRef(t, wrong) == IF t.base \in {"struct", "enum", "ident"}
              THEN IF t.name = 0 THEN T("basic", 6, 0, NoSize, <<>>)
                   ELSE IF t.base # "ident" /\ ~wrong THEN [t EXCEPT !.base = env[t.name].k] ELSE t
              ELSE t

DrawSize(j, t, q, r) ==
    IF j.bits = Dyn \/ ~j.ok THEN NoSize
    ELSE LET n == IF t.len = NoSize \/ t.len <= 0 THEN 1 ELSE t.len
             full == j.bits \div n IN
         CASE q <= 55 -> NoSize
           [] q > 55 /\ q <= 65 -> j.bits
           [] OTHER -> IF ElemJ(t).k = "struct" THEN j.bits ELSE n * (1 + (r % full))

(* a faulty construct still takes its apparent room, so that what follows it is
   laid out as if it were fine: the fault stays the only one in the struct *)
ApparentElem(t) == IF t.base = "inner" THEN LET d == t.def[1] IN Sum([i \in DOMAIN d.fields |-> InnerBits(d.fields[i])])
                   ELSE LET j == ElemJ(t) IN IF j.bits = Dyn THEN 0 ELSE j.bits
Apparent(f) == IF f.size > 0 THEN f.size
               ELSE IF f.kind = "void" THEN 0
               ELSE ApparentElem(f.t) * (IF f.t.len > 0 THEN f.t.len ELSE 1)

Read(f) ==
    LET j == FieldJ(f)
        k == Len(cur[1].fields) + 1
        clash == j.ok /\ (~NoDup(j.names) \/ Range(j.names) \cap Range(names) # {})
        mis == j.ok /\ ~Aligned(j.flat, off) IN
    /\ cur' = <<[cur[1] EXCEPT !.fields = Append(@, f)]>>
    /\ faults' = faults \cup (IF ~j.ok \/ clash THEN {k} ELSE {}) \cup (IF mis THEN {-k} ELSE {})
    /\ dep' = (dep \/ j.dep)
    /\ names' = names \o j.names /\ flat' = flat \o j.flat
    /\ off' = off + (IF j.ok THEN PartsBits(j.flat) ELSE Apparent(f))
    /\ dyn' = (dyn \/ PartsDyn(j.flat))
    /\ taken' = taken \cup Globals(f)

(* names that the fields and methods of earlier structs have; in a struct of its
   own such a name is fine, until the other struct is embedded there *)
Others   == {x \in UNION {Range(env[y].scope) : y \in DOMAIN env} : x > 0} \ Range(names)
Clashing == {y \in DOMAIN env : env[y].k = "struct" /\ Range(env[y].scope) \cap Range(names) # {}}

GoodOpts == <<<<"big">>, <<"little">>, <<"odd">>, <<"odd", "big">>, <<"little", "odd">>, <<"odd", "odd2">>, <<"odd2", "big", "odd">>>>
BadOpts  == <<<<"middle">>, <<"upper">>, <<"bool">>, <<"int">>, <<"float">>, <<"big", "big">>, <<"big", "little">>, <<"odd", "odd">>, <<"odd", "middle">>, <<"odd", "odd2", "odd">>, <<"little", "odd", "big">>>>
Lens == <<NoSize, NoSize, NoSize, NoSize, 1, 2, 3, 5>>
DrawField ==
    /\ phase = "def" /\ cur # <<>> /\ want > 0 /\ want' = want - 1
    /\ \E q \in {RandomElement(1..100)} : \E q2 \in {RandomElement(1..100)} : \E q3 \in {RandomElement(1..100)} : \E b \in {RandomElement(1..11)} : \E r \in {RandomElement(0..70)} :
       \E li \in {RandomElement(DOMAIN Lens)} :
       \E lenBad \in Chance(2) : \E szBad \in Chance(6) : \E nmBad \in Chance(2) : \E dup \in Chance(5) : \E wrong \in Chance(10) :
       \E miss \in Chance(3) : \E ib \in {RandomElement(1..11)} : \E ibad \in Chance(20) : \E pad \in {RandomElement(1..100) <= 85} :
       \E litBad \in Chance(10) : \E lk \in {RandomElement({"int", "neg", "bool", "float", "string", "member", "typename"})} :
       \E mx \in {RandomElement({"int", "member"})} : \E hasopt \in {RandomElement(1..100) <= 25} : \E badopt \in Chance(2) :
       \E reuse \in {RandomElement(1..100) <= 25} : \E old \in {One(Others, fm)} : \E dupn \in {One({x \in Range(names) : x > 0}, 1)} : \E mre \in {RandomElement(1..100) <= 40} : \E mold \in {One(Others, fm + 1)} :
       \E rn \in {RandomElement(1..nm)} : \E rf \in {RandomElement(1..fm)} : \E rl \in {RandomElement({0, Huge})} : \E rs \in {RandomElement(1..6)} : \E mz \in {RandomElement(0..2)} :
       \E en \in {One(DOMAIN env, 0)} : \E lm \in {One(DOMAIN mems, nm)} : \E lt \in {One(DOMAIN env, nm)} :
       \E cl \in Chance(6) : \E ce \in {One(Clashing, 0)} :
       \E op \in {RandomElement(DOMAIN GoodOpts)} : \E ob \in {RandomElement(DOMAIN BadOpts)} : \E nmeth \in {RandomElement(0..3)} : \E mb \in Chance(10) :
       LET nested == <<[kind |-> "struct", name |-> IF dup /\ ibad THEN rn ELSE nm, bad |-> nmBad, mem |-> <<>>, rel |-> "none",
                        size |-> IF q3 <= 20 THEN Width[ib] + (IF ibad THEN 0 ELSE 8 - (Width[ib] % 8)) ELSE NoSize,
                        fields |-> <<[b |-> ib, name |-> fm + 6, size |-> IF ibad THEN 3 ELSE NoSize]>> \o
                                   (IF q3 <= 50 THEN <<[b |-> 6, name |-> IF ibad /\ dup THEN fm + 6 ELSE fm + 7, size |-> IF q3 % 3 = 0 /\ ibad THEN 5 ELSE 8]>> ELSE <<>>)]>>
           t0 == FixRef(Types(q, b, nested, en), wrong)
           clash == cl /\ ce # 0
           t1 == IF clash THEN T(IF q % 2 = 0 THEN "ident" ELSE "struct", 1, ce, NoSize, <<>>) ELSE IF miss THEN T("ident", 1, rn, NoSize, <<>>) ELSE t0
           embed == (clash \/ q2 <= 12) /\ t1.base \in {"inner", "ident", "struct"}
           t == IF t1.base = "inner" \/ clash \/ (embed /\ ~wrong) THEN t1 ELSE [t1 EXCEPT !.len = IF lenBad THEN (IF ElemJ(t1).bits = Dyn \/ ElemJ(t1).bits < 4 THEN 0 ELSE rl) ELSE Lens[li]]
           j == TypeJ(t)
           size == IF szBad THEN (IF j.ok /\ j.bits # Dyn THEN <<0, Huge, j.bits + 1, j.bits + 8, 1 + r, IF j.bits > 1 THEN j.bits - 1 ELSE 0>>[rs] ELSE 8 + r)
                   ELSE DrawSize(j, t, q2, r)
           name == IF dup THEN (IF r % 2 = 0 THEN dupn ELSE rf) ELSE IF reuse THEN old ELSE fm
           m0 == IF mre /\ mold # name THEN mold ELSE fm + 1
           lit == IF litBad THEN lk ELSE IF IsBool(b) THEN "bool" ELSE IF IsFloat(b) THEN "float"
                  ELSE IF IsSint(b) /\ q3 <= 30 THEN "neg" ELSE IF mems = <<>> THEN "int" ELSE mx
           meth == [i \in 1..nmeth |-> [name |-> IF mb THEN (IF (mz + i) % 3 = 0 THEN name ELSE fm + 1) ELSE IF i <= 2 THEN m0 ELSE fm + 2, bad |-> mb /\ i = 2 /\ q3 <= 50,
                                        set |-> IF mb THEN q3 <= 50 ELSE i % 2 = 0, b |-> IF mb /\ i = 1 THEN 1 + (b % 11) ELSE b]]
           f0 == CASE clash -> F("embed", t, 0, FALSE, NoSize, NoLit, FALSE, <<>>)
                  [] q3 <= 8 -> VoidF(IF szBad THEN rl ELSE 1 + r)
                  [] q3 > 8 /\ q3 <= 22 /\ t.base = "basic" ->
                       F("const", T("basic", b, 0, NoSize, <<>>), IF q2 % 2 = 0 THEN 0 ELSE name, nmBad /\ q2 % 2 = 1,
                         IF szBad THEN <<0, Width[b] + 1, Huge>>[1 + (rs % 3)] ELSE IF q2 <= 60 THEN NoSize ELSE 1 + (r % Width[b]),
                         [kind |-> lit, b |-> b, name |-> IF lit = "member" THEN lm ELSE IF lit = "typename" THEN lt ELSE 0],
                         FALSE, <<>>)
                  [] q3 > 22 /\ embed -> F("embed", t, 0, FALSE, NoSize, NoLit, FALSE, <<>>)
                  [] OTHER -> F("normal", t, name, nmBad, size, NoLit, (t.base = "basic" /\ t.len = NoSize /\ q2 <= 25) \/ (wrong /\ q2 <= 25), IF q2 <= 25 THEN meth ELSE <<>>)
           f == [f0 EXCEPT !.opts = IF badopt THEN BadOpts[ob] ELSE IF hasopt THEN GoodOpts[op] ELSE <<>>]
           jf == FieldJ(f)
           needs == jf.ok /\ ~Aligned(jf.flat, off) IN
       IF needs /\ pad THEN Read(VoidF(8 - (off % 8))) ELSE Read(f)
    /\ nm' = nm + 1 /\ fm' = fm + 8
    /\ UNCHANGED <<defs, env, mems, doubt, phase, plan>>

(* the size declared is settled last, so that it can be right *)
Settle(d) == [d EXCEPT !.size = CASE d.rel = "none" -> NoSize [] d.rel = "right" -> IF dyn THEN NoSize ELSE off
                                  [] d.rel = "zero" -> 0 [] d.rel = "huge" -> Huge [] d.rel = "wrong" -> IF dyn THEN off + 8 ELSE IF off > 8 THEN off - 8 ELSE off + 1]
PadEnd == /\ phase = "def" /\ cur # <<>> /\ want = 0 /\ plan = <<>> /\ off % 8 # 0
          /\ \E pad \in {MODE # "random" \/ RandomElement(1..100) <= 90} :
                IF pad THEN Read(VoidF(8 - (off % 8))) /\ UNCHANGED want
                ELSE want' = -1 /\ Keep /\ UNCHANGED <<cur, taken>>
          /\ UNCHANGED <<defs, env, mems, doubt, nm, fm, phase, plan>>

(* what is wrong with the finished struct, by construct: 0 the head, k the k-th field *)
SizeFault(d) == d.size # NoSize /\ (~SizeOk(d.size) \/ dyn \/ d.size # off)
StructFaults(d) ==
    LET early == {k \in faults : k >= 0} \cup (IF d.size # NoSize /\ ~SizeOk(d.size) THEN {0} ELSE {}) \cup (IF d.fields = <<>> THEN {0} ELSE {})
        mis == {-k : k \in {k \in faults : k < 0}} IN
    IF early # {} THEN early
    ELSE IF mis # {} THEN mis
    ELSE IF off % 8 # 0 \/ SizeFault(d) THEN {0} ELSE {}

EndStruct ==
    /\ phase = "def" /\ cur # <<>> /\ plan = <<>> /\ (want = -1 \/ (want = 0 /\ off % 8 = 0))
    /\ LET d == Settle(cur[1])
           at == StructFaults(d)
           inner == UNION {Globals(d.fields[i]) : i \in DOMAIN d.fields} IN
       /\ defs' = Append(defs, [def |-> d, at |-> at, dep |-> dep, bits |-> IF dyn THEN Dyn ELSE off, flat |-> flat, names |-> names])
       /\ IF at = {} THEN env' = Extend(env, d.name, [k |-> "struct", bits |-> IF dyn THEN Dyn ELSE off, flat |-> flat, scope |-> names])
                          /\ UNCHANGED doubt
          ELSE doubt' = doubt \cup {d.name} \cup inner /\ UNCHANGED env
    /\ cur' = <<>> /\ Reset
    /\ UNCHANGED <<mems, taken, nm, fm, phase, want, plan>>

-----------------------------------------------------------------------------
(* The grid: an enum of 4 bits, a struct of 2 bytes, a variable-size struct, *)
(* and one struct with a field of every type, length and size at an offset   *)
GEnum == [kind |-> "enum", name |-> 1, bad |-> FALSE, size |-> 4, fields |-> <<>>, rel |-> "none",
          mem |-> <<[name |-> 2, bad |-> FALSE, kind |-> "auto", v |-> 0]>>]
GFix  == [NewStruct(3, FALSE, NoSize) EXCEPT !.fields = <<F("normal", T("basic", 7, 0, NoSize, <<>>), 1, FALSE, NoSize, NoLit, FALSE, <<>>)>>]
GVar  == [NewStruct(4, FALSE, NoSize) EXCEPT !.fields = <<F("normal", T("string", 1, 0, NoSize, <<>>), 1, FALSE, NoSize, NoLit, FALSE, <<>>)>>]
GDefs == << [def |-> GEnum, at |-> {}, dep |-> FALSE, bits |-> 4, flat |-> <<>>, names |-> <<>>],
            [def |-> GFix, at |-> {}, dep |-> FALSE, bits |-> 16, flat |-> <<Part(16, FALSE)>>, names |-> <<1>>],
            [def |-> GVar, at |-> {}, dep |-> FALSE, bits |-> Dyn, flat |-> <<Part(Dyn, TRUE)>>, names |-> <<1>>] >>
GEnv == [x \in {1, 3, 4} |-> CASE x = 1 -> [k |-> "enum", bits |-> 4, flat |-> <<>>, scope |-> <<>>]
                               [] x = 3 -> [k |-> "struct", bits |-> 16, flat |-> <<Part(16, FALSE)>>, scope |-> <<1>>]
                               [] x = 4 -> [k |-> "struct", bits |-> Dyn, flat |-> <<Part(Dyn, TRUE)>>, scope |-> <<1>>]]
GTypes == {T("basic", b, 0, NoSize, <<>>) : b \in 1..11} \cup {T(s, 1, 0, NoSize, <<>>) : s \in {"string", "bytes"}}
          \cup {T("ident", 1, n, NoSize, <<>>) : n \in {1, 3, 4}}
          \cup {T("struct", 1, n, NoSize, <<>>) : n \in {1, 3}} \cup {T("enum", 1, n, NoSize, <<>>) : n \in {1, 4}}
GBits(t, l) == (CASE t.base = "basic" -> Width[t.b] [] t.name = 1 -> 4 [] t.name = 3 -> 16 [] OTHER -> 8) * (IF l <= 0 THEN 1 ELSE l)
GSizes(t, l) == LET n == GBits(t, l) IN {NoSize, 0, 1, 2, 3, 6, 8, 9, 12, n - 8, n - 3, n - 2, n - 1, n, n + 1, n + 8, n + l} \ (-100..-2)
GridInit ==
    /\ defs = GDefs /\ env = GEnv /\ mems = [x \in {2} |-> 0] /\ taken = {1, 2, 3, 4} /\ doubt = {}
    /\ cur = <<NewStruct(5, FALSE, NoSize)>> /\ want = 0 /\ nm = 6 /\ fm = 6 /\ phase = "def"
    /\ off = 0 /\ dyn = FALSE /\ flat = <<>> /\ names = <<>> /\ faults = {} /\ dep = FALSE
    /\ \E o \in {0, 3, 4, 8} : \E t \in GTypes : \E l \in {NoSize, 0, 1, 2, 3} :
       LET ty == [t EXCEPT !.len = l]
           pre == IF o = 0 THEN <<>> ELSE <<VoidF(o)>> IN
       \/ \E s \in GSizes(t, l) :
             plan = Append(pre, F("normal", ty, 2, FALSE, s, NoLit, FALSE, <<>>))
       \/ plan = Append(pre, F("embed", ty, 0, FALSE, NoSize, NoLit, FALSE, <<>>))
       \/ /\ t.base = "basic" /\ l = NoSize
          /\ \E s \in GSizes(t, l) : \E k \in {"int", "neg", "bool", "float", "string", "member", "typename"} :
                plan = Append(pre, F("const", ty, 2, FALSE, s, [kind |-> k, b |-> t.b, name |-> IF k = "member" THEN 2 ELSE IF k = "typename" THEN 3 ELSE 0], FALSE, <<>>))
(* Scopes: a struct 3 with a field, its accessor, a constant and an embedded  *)
(* struct 4 that has a field and an accessor; and every struct of LONG parts  *)
(* whose names are taken from those or new                                    *)
U8 == T("basic", 6, 0, NoSize, <<>>)
SF(n, ms) == F("normal", U8, n, FALSE, NoSize, NoLit, ms # <<>>, [i \in DOMAIN ms |-> [name |-> ms[i], bad |-> FALSE, set |-> i = 2, b |-> 6]])
SC(n) == F("const", U8, n, FALSE, NoSize, [kind |-> "int", b |-> 6, name |-> 0], FALSE, <<>>)
SE(n) == F("embed", T("ident", 1, n, NoSize, <<>>), 0, FALSE, NoSize, NoLit, FALSE, <<>>)
SDef4 == [NewStruct(4, FALSE, NoSize) EXCEPT !.fields = <<SF(4, <<5>>)>>]
SDef3 == [NewStruct(3, FALSE, NoSize) EXCEPT !.fields = <<SF(1, <<2, 2>>), SC(3), SE(4)>>]
S8(n) == [i \in 1..n |-> Part(8, FALSE)]
SEnv == [x \in {3, 4} |-> IF x = 4 THEN [k |-> "struct", bits |-> 8, flat |-> S8(1), scope |-> <<4, 5>>]
                          ELSE [k |-> "struct", bits |-> 24, flat |-> S8(3), scope |-> <<1, 2, 3, -4, 4, 5>>]]
SDefs == << [def |-> SDef4, at |-> {}, dep |-> FALSE, bits |-> 8, flat |-> S8(1), names |-> SEnv[4].scope],
            [def |-> SDef3, at |-> {}, dep |-> FALSE, bits |-> 24, flat |-> S8(3), names |-> SEnv[3].scope] >>
SNames == {1, 2, 3, 4, 5, 9}
SParts(k) == {SF(n, <<>>) : n \in SNames} \cup {SF(9 + k, <<n>>) : n \in SNames} \cup {SF(9 + k, <<19 + k, n>>) : n \in {2, 5}}
             \cup {SF(n, <<9>>) : n \in {2, 5}} \cup {SC(n) : n \in SNames \cup {0}} \cup {SE(n) : n \in {3, 4}}
ScopeInit ==
    /\ defs = SDefs /\ env = SEnv /\ mems = <<>> /\ taken = {3, 4} /\ doubt = {}
    /\ cur = <<NewStruct(5, FALSE, NoSize)>> /\ want = 0 /\ nm = 6 /\ fm = 30 /\ phase = "def"
    /\ off = 0 /\ dyn = FALSE /\ flat = <<>> /\ names = <<>> /\ faults = {} /\ dep = FALSE
    /\ \E p, q \in SParts(1) : \E r \in SParts(2) : plan = IF NDEFS = 2 THEN <<p, q>> ELSE <<p, q, r>>
Planned == /\ plan # <<>> /\ Read(Head(plan)) /\ plan' = Tail(plan)
           /\ UNCHANGED <<defs, env, mems, doubt, nm, fm, phase, want>>

DrawInit ==
    /\ defs = <<>> /\ cur = <<>> /\ env = <<>> /\ mems = <<>> /\ taken = {} /\ doubt = {}
    /\ nm = 1 /\ fm = 1 /\ off = 0 /\ dyn = FALSE /\ flat = <<>> /\ names = <<>> /\ faults = {} /\ dep = FALSE
    /\ want = 0 /\ plan = <<>> /\ phase = "def"

Init == CASE MODE = "grid" -> GridInit [] MODE = "scope" -> ScopeInit [] OTHER -> DrawInit
Complete == cur = <<>> /\ Len(defs) >= (CASE MODE = "grid" -> 4 [] MODE = "scope" -> 3 [] OTHER -> NDEFS)
Save == /\ phase = "def" /\ Complete
        /\ Serialize(ToJson([defs |-> [i \in DOMAIN defs |-> [def |-> defs[i].def, at |-> defs[i].at, dep |-> defs[i].dep, bits |-> defs[i].bits]]]) \o "\n", OUT,
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
        /\ phase' = "saved"
        /\ UNCHANGED <<defs, cur, env, mems, taken, doubt, nm, fm, off, dyn, flat, names, faults, dep, plan, want>>
Choose == IF cur = <<>> /\ phase = "def" /\ Len(defs) < NDEFS /\ MODE = "random"
          THEN \E e \in {RandomElement(1..100) <= 35} : IF e THEN DrawEnum ELSE BeginStruct
          ELSE FALSE
Next == Choose \/ DrawField \/ PadEnd \/ EndStruct \/ Planned \/ Save
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What an accepted struct guarantees *)
Starts(ps, i) == PartsBits(SubSeq(ps, 1, i - 1))
SoundStruct(d) ==
    /\ d.flat # <<>> /\ NoDup(d.names)
    /\ IF PartsDyn(d.flat) THEN d.bits = Dyn ELSE d.bits = PartsBits(d.flat)
    /\ PartsBits(d.flat) % 8 = 0
    /\ \A i \in DOMAIN d.flat : d.flat[i].must => Starts(d.flat, i) % 8 = 0
    /\ d.def.size \in {NoSize, d.bits} /\ ~d.def.bad
SoundEnum(d) == d.def.size \in 1..64 /\ d.def.mem # <<>> /\ ~d.def.bad /\ \A i \in DOMAIN d.def.mem : ~d.def.mem[i].bad
Sound == \A i \in DOMAIN defs : defs[i].at = {} => IF defs[i].def.kind = "enum" THEN SoundEnum(defs[i]) ELSE SoundStruct(defs[i])
(* no two accepted definitions share a name *)
AllNames(d) == <<d.name>> \o [i \in DOMAIN d.mem |-> d.mem[i].name] \o
               Cat([i \in DOMAIN d.fields |-> LET g == Globals(d.fields[i]) IN IF g = {} THEN <<>> ELSE <<CHOOSE x \in g : TRUE>>])
Unique == LET ok == SelectSeq(defs, LAMBDA d : d.at = {}) IN NoDup(Cat([i \in DOMAIN ok |-> AllNames(ok[i].def)]))
(* a definition found faulty has a faulty construct *)
Located == \A i \in DOMAIN defs : defs[i].at \subseteq 0..(Len(defs[i].def.fields) + Len(defs[i].def.mem))
=============================================================================
