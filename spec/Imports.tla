------------------------------ MODULE Imports ------------------------------
(***************************************************************************)
(* Compilation of a file and everything it imports (compiler/              *)
(* compilation_runtime.go): a depth-first walk with a stack of open files, *)
(* a list of finished ones, and one scope of global names per file.        *)
(*                                                                         *)
(* A world is a set of files 1..N, file 1 being the one on the command     *)
(* line.  A file may be absent; it declares a package, imports files under *)
(* some spelling of their path, and defines structs and enums whose names, *)
(* member names and inner struct names share one name space.               *)
(*                                                                         *)
(* MODE "graph": every import graph over N files (all orders of the        *)
(* written imports for N <= 3), everything else well-formed.               *)
(* MODE "dag": the same for imports of higher-numbered files only.         *)
(* MODE "random": worlds drawn at random with injected faults.             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

N      == atoi(IOEnv.NFILES)
MODE   == IOEnv.MODE
OUT    == IOEnv.OUT
STRIDE == atoi(IOEnv.STRIDE)   \* graph and dag modes: keep every STRIDE-th world
PHASE  == atoi(IOEnv.PHASE)

Files == 1..N

VARIABLES world, cur, nm,            \* drawing
          phase, stack, opened, done, vis, err,
          at,                        \* where the first fault is reported: [f, what, i]
          warned                     \* warnings given: <<file, what>>
vars == <<world, cur, nm, phase, stack, opened, done, vis, err, at, warned>>

NoFile == [exists |-> FALSE, pkg |-> 0, tail |-> FALSE, odd |-> {}, imps |-> <<>>, defs |-> <<>>]
Range(s) == {s[i] : i \in DOMAIN s}

-----------------------------------------------------------------------------
(* Names *)
Place(f, what, i) == [f |-> f, what |-> what, i |-> i]
Nowhere == Place(0, "", 0)
Struct(n, inner, refs) == [kind |-> "struct", name |-> n, inner |-> inner, mem |-> <<>>, refs |-> refs]
Enum(n, mem)           == [kind |-> "enum", name |-> n, inner |-> 0, mem |-> mem, refs |-> <<>>]

DefNames(d) == <<d.name>> \o (IF d.inner = 0 THEN <<>> ELSE <<d.inner>>) \o [i \in DOMAIN d.mem |-> d.mem[i].name]
RECURSIVE NamesOf(_)
NamesOf(ds) == IF ds = <<>> THEN <<>> ELSE DefNames(Head(ds)) \o NamesOf(Tail(ds))
FileNames(f) == NamesOf(world[f].defs)
Types(ds)   == {ds[i].name : i \in DOMAIN ds}
Members(ds) == UNION {{ds[i].mem[j].name : j \in DOMAIN ds[i].mem} : i \in DOMAIN ds}
NoDup(s)    == Cardinality(Range(s)) = Len(s)

(* what definition i of a file refers to, as <<kind, name>> *)
DefRefs(d) == {<<d.refs[i].what, d.refs[i].name>> : i \in DOMAIN d.refs}
              \cup {<<"member", d.mem[i].ref>> : i \in {j \in DOMAIN d.mem : d.mem[j].ref # 0}}
Resolves(r, ts, ms) == IF r[1] = "type" THEN r[2] \in ts ELSE r[2] \in ms

(* visible: [types, members, names]; names is the set of <<name, file>> *)
NoVis == [types |-> {}, mems |-> {}, names |-> {}]
Own(f) == [types |-> Types(world[f].defs), mems |-> Members(world[f].defs),
           names |-> {<<x, f>> : x \in Range(FileNames(f))}]
Join(a, b) == [types |-> a.types \cup b.types, mems |-> a.mems \cup b.mems, names |-> a.names \cup b.names]
Clash(v) == \E a, b \in v.names : a[1] = b[1] /\ a[2] # b[2]

RECURSIVE Imported(_, _)
Imported(f, i) == IF i = 0 THEN NoVis ELSE Join(Imported(f, i - 1), vis[world[f].imps[i].to])

(* the definitions of f in order, each seeing the earlier ones *)
BodyOk(f, v0) == \A i \in DOMAIN world[f].defs :
    LET before == SubSeq(world[f].defs, 1, i - 1)
        ts == v0.types \cup Types(before)
        ms == v0.mems \cup Members(before) IN
    \A r \in DefRefs(world[f].defs[i]) : Resolves(r, ts, ms)

-----------------------------------------------------------------------------
(* The declarative account *)
Imps(f) == {world[f].imps[i].to : i \in DOMAIN world[f].imps}
Step1(S) == S \cup UNION {IF world[f].exists THEN Imps(f) ELSE {} : f \in S}
RECURSIVE Closure(_, _)
Closure(S, k) == IF k = 0 THEN S ELSE Closure(Step1(S), k - 1)
Reach(f)  == Closure({f}, N)
Below(f)  == Closure(Imps(f), N)
SeenBy(f) == [types |-> UNION {Types(world[g].defs) : g \in Below(f)},
              mems  |-> UNION {Members(world[g].defs) : g \in Below(f)}, names |-> {}]
WellFormed ==
    LET R == Reach(1) IN
    /\ \A f \in R : world[f].exists
    /\ \A f \in R : f \notin Below(f)
    /\ \A f, g \in R : f # g => world[f].pkg # world[g].pkg
    /\ \A f \in R : NoDup(FileNames(f))
    /\ \A f, g \in R : f # g => Range(FileNames(f)) \cap Range(FileNames(g)) = {}
    /\ \A f \in R : BodyOk(f, SeenBy(f))

-----------------------------------------------------------------------------
(* Worlds *)
Orders == {<<>>} \cup {<<a>> : a \in Files} \cup {p \in Files \X Files : p[1] # p[2]}
          \cup (IF N = 3 THEN {p \in Files \X Files \X Files : Cardinality(Range(p)) = 3} ELSE {})
SetSeq(S) == SelectSeq([i \in 1..N |-> i], LAMBDA x : x \in S)
Written == IF N <= 3 THEN Orders ELSE {SetSeq(S) : S \in SUBSET Files}
RECURSIVE Perms(_)
Perms(S) == {<<>>} \cup UNION {{<<x>> \o p : p \in Perms(S \ {x})} : x \in S}
RECURSIVE Dags(_)
Dags(f) == IF f > N THEN {<<>>} ELSE {<<p>> \o r : p \in Perms({g \in Files : g > f}), r \in Dags(f + 1)}
Worlds == IF MODE = "dag" THEN Dags(1) ELSE [Files -> Written]
Plain(f, s) == [exists |-> TRUE, pkg |-> f, tail |-> FALSE, odd |-> {"option", "field"},
                imps |-> [i \in DOMAIN s |-> [to |-> s[i], sp |-> (f + s[i] + i) % 6]],
                defs |-> <<Struct(f, 0, [i \in DOMAIN s |-> [what |-> "type", name |-> s[i]]])>>]
Hash(w) == LET h(f) == Len(w[f]) + 3 * (IF w[f] = <<>> THEN 0 ELSE w[f][1]) + 7 * (IF Len(w[f]) < 2 THEN 0 ELSE w[f][2])
           IN h(1) + 13 * h(2) + 31 * h(IF N < 3 THEN 1 ELSE 3) + 57 * h(IF N < 4 THEN 1 ELSE 4)

Init == /\ warned = <<>> /\ stack = <<>> /\ opened = {} /\ done = <<>> /\ err = "" /\ at = Nowhere
        /\ vis = [f \in Files |-> NoVis]
        /\ IF MODE \in {"graph", "dag"}
           THEN /\ \E w \in Worlds : Hash(w) % STRIDE = PHASE % STRIDE /\ world = [f \in Files |-> Plain(f, w[f])]
                /\ cur = 0 /\ nm = N + 1 /\ phase = "start"
           ELSE world = [f \in Files |-> NoFile] /\ cur = N /\ nm = 1 /\ phase = "file"

Run == UNCHANGED <<stack, opened, done, vis, err, at, warned>>
Chance(p) == {RandomElement(1..1000) <= p}

(* the file's import list is drawn after those of the files above it, so acyclic worlds are common *)
DrawFile ==
    /\ phase = "file"
    /\ \E k \in {RandomElement(0..3)} : \E absent \in Chance(25) : \E samePkg \in Chance(40) : \E t \in Chance(250) :
       \E anywhere \in Chance(60) : \E g1 \in {RandomElement(Files)} : \E g2 \in {RandomElement(Files)} : \E g3 \in {RandomElement(Files)} :
       \E s1 \in {RandomElement(0..5)} : \E s2 \in {RandomElement(0..5)} : \E s3 \in {RandomElement(0..5)} : \E p \in {RandomElement(Files)} :
       \E odd \in {RandomElement(SUBSET {"option", "field"})} :
       LET lo(g) == IF anywhere \/ cur = N THEN g ELSE cur + 1 + (g % (N - cur))
           all == <<[to |-> lo(g1), sp |-> s1], [to |-> lo(g2), sp |-> s2], [to |-> lo(g3), sp |-> s3]>>
           keep == IF cur = N /\ ~anywhere THEN <<>> ELSE SubSeq(all, 1, IF cur = 1 /\ k = 0 THEN 2 ELSE k) IN
       world' = [world EXCEPT ![cur] = [exists |-> ~absent, pkg |-> IF samePkg THEN p ELSE cur, tail |-> t, odd |-> odd, imps |-> keep, defs |-> <<>>]]
    /\ phase' = "defs" /\ UNCHANGED <<cur, nm>> /\ Run

Known(f) == LET v == SeenBy(f) IN
            [types |-> v.types \cup Types(world[f].defs), mems |-> v.mems \cup Members(world[f].defs)]
Everywhere == [types |-> UNION {Types(world[g].defs) : g \in Files}, mems |-> UNION {Members(world[g].defs) : g \in Files}]
Pick(S) == IF S = {} THEN 0 ELSE RandomElement(S)

DrawDef ==
    /\ phase = "defs"
    /\ \E wild \in Chance(60) : \E dup \in Chance(30) : \E isEnum \in Chance(350) : \E nested \in Chance(200) :
       \E nmem \in {RandomElement(1..3)} : \E mref \in Chance(400) : \E old \in {RandomElement(1..nm)} :
       LET k == IF wild THEN Everywhere ELSE Known(cur) IN
       \E t1 \in {Pick(k.types)} : \E t2 \in {Pick(k.types)} : \E m1 \in {Pick(k.mems)} : \E use \in {RandomElement(0..3)} :
       LET ty(t) == IF t = 0 THEN <<>> ELSE <<[what |-> "type", name |-> t]>>
           mb == IF m1 = 0 THEN <<>> ELSE <<[what |-> "member", name |-> m1]>>
           name == IF dup THEN old ELSE nm
           refs == CASE use = 0 -> <<>> [] use = 1 -> ty(t1) [] use = 2 -> ty(t1) \o mb [] use = 3 -> ty(t1) \o ty(t2) \o mb
           d == IF isEnum
                THEN Enum(name, [i \in 1..nmem |-> [name |-> nm + i, ref |-> IF i = nmem /\ mref THEN m1 ELSE 0]])
                ELSE Struct(name, IF nested THEN nm + 1 ELSE 0, refs) IN
       world' = [world EXCEPT ![cur].defs = Append(@, d)]
    /\ nm' = nm + 5
    /\ \E more \in Chance(400) :
        IF more THEN UNCHANGED <<cur, phase>>
        ELSE IF cur = 1 THEN phase' = "start" /\ UNCHANGED cur
        ELSE phase' = "file" /\ cur' = cur - 1
    /\ Run

-----------------------------------------------------------------------------
(* The compiler *)
Draw == UNCHANGED <<world, cur, nm>>
Fail(why, place) == err' = why /\ at' = place /\ phase' = "end" /\ UNCHANGED <<stack, opened, done, vis, warned>>

(* what a file warns about by itself: an unknown file option is seen when the
   file is opened, an unknown option of a field when its definitions are read *)
Heads(f)  == IF "option" \in world[f].odd THEN <<<<f, "option">>>> ELSE <<>>
Fields(f) == IF "field" \in world[f].odd /\ \E i \in DOMAIN world[f].defs : world[f].defs[i].kind = "struct" THEN <<<<f, "field">>>> ELSE <<>>

(* the first import that brings in a name twice, and the first faulty definition *)
FirstClash(f) == CHOOSE i \in DOMAIN world[f].imps :
    Clash(Imported(f, i)) /\ \A j \in 1..(i - 1) : ~Clash(Imported(f, j))
NameBad(f, v0, i) ==
    LET before == Range(NamesOf(SubSeq(world[f].defs, 1, i - 1))) \cup {x[1] : x \in v0.names}
        own == DefNames(world[f].defs[i]) IN
    ~NoDup(own) \/ Range(own) \cap before # {}
RefBad(f, v0, i) == \E r \in DefRefs(world[f].defs[i]) :
    ~Resolves(r, v0.types \cup Types(SubSeq(world[f].defs, 1, i - 1)), v0.mems \cup Members(SubSeq(world[f].defs, 1, i - 1)))
FirstBad(f, v0) == CHOOSE i \in DOMAIN world[f].defs :
    (NameBad(f, v0, i) \/ RefBad(f, v0, i)) /\ \A j \in 1..(i - 1) : ~NameBad(f, v0, j) /\ ~RefBad(f, v0, j)

(* opening a file reads it and reserves its package name *)
Open(f) == IF \E g \in opened : world[g].pkg = world[f].pkg THEN Fail("package", Place(f, "package", 0))
           ELSE /\ stack' = Append(stack, [f |-> f, i |-> 1]) /\ opened' = opened \cup {f}
                /\ warned' = warned \o Heads(f)
                /\ phase' = "run" /\ UNCHANGED <<done, vis, err, at>>
Start == /\ phase = "start" /\ Draw
         /\ IF world[1].exists THEN Open(1) ELSE Fail("missing", Nowhere)

Top == stack[Len(stack)]
Stacked == {stack[i].f : i \in DOMAIN stack}
Advance == [stack EXCEPT ![Len(stack)].i = @ + 1]
Import ==
    /\ phase = "run" /\ stack # <<>> /\ Top.i <= Len(world[Top.f].imps) /\ Draw
    /\ LET g == world[Top.f].imps[Top.i].to IN
       CASE ~world[g].exists -> Fail("missing", Place(Top.f, "import", Top.i))
         [] world[g].exists /\ g = Top.f -> Fail("self", Place(Top.f, "import", Top.i))
         [] world[g].exists /\ g # Top.f /\ g \in Stacked -> Fail("cycle", Place(Top.f, "import", Top.i))
         [] world[g].exists /\ g \notin Stacked /\ g \in Range(done) ->
              stack' = Advance /\ UNCHANGED <<phase, opened, done, vis, err, at, warned>>
         [] world[g].exists /\ g \notin Stacked /\ g \notin Range(done) -> Open(g)
Finish ==
    /\ phase = "run" /\ stack # <<>> /\ Top.i > Len(world[Top.f].imps) /\ Draw
    /\ LET f == Top.f
           v0 == Imported(f, Len(world[f].imps))
           v == Join(v0, Own(f)) IN
       IF Clash(v0) THEN Fail("name", Place(f, "import", FirstClash(f)))
       ELSE IF ~NoDup(FileNames(f)) \/ Clash(v) THEN Fail("name", Place(f, "def", FirstBad(f, v0)))
       ELSE IF ~BodyOk(f, v0) THEN Fail("reference", Place(f, "def", FirstBad(f, v0)))
       ELSE /\ warned' = warned \o Fields(f)
            /\ done' = Append(done, f) /\ vis' = [vis EXCEPT ![f] = v]
            /\ LET rest == SubSeq(stack, 1, Len(stack) - 1) IN
               IF rest = <<>> THEN stack' = <<>> /\ phase' = "end"
               ELSE stack' = [rest EXCEPT ![Len(rest)].i = @ + 1] /\ phase' = "run"
            /\ UNCHANGED <<opened, err, at>>

(* expected observations *)
Save == /\ phase = "end"
        /\ Serialize(ToJson([world |-> world, ok |-> err = "", why |-> err, at |-> at, order |-> done, warned |-> warned]) \o "\n", OUT,
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
        /\ phase' = "saved" /\ UNCHANGED <<world, cur, nm, stack, opened, done, vis, err, at, warned>>
Next == DrawFile \/ DrawDef \/ Start \/ Import \/ Finish \/ Save
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Ended == phase \in {"end", "saved"}
(* the walk succeeds exactly on the well-formed worlds *)
Decides == Ended => ((err = "") <=> WellFormed)
(* every reachable file once, after everything it imports *)
Ordered == /\ NoDup(done)
           /\ \A i \in DOMAIN done : Imps(done[i]) \subseteq {done[j] : j \in 1..(i - 1)}
           /\ (Ended /\ err = "") => Range(done) = Reach(1)
(* a failure has a place, in a file that has been opened or is being imported *)
Placed == Ended => IF err = "" THEN at = Nowhere ELSE at = Nowhere \/ (at.f \in Reach(1) /\ world[at.f].exists)
(* every file's own warnings are given once, however many files import it *)
Warned == /\ NoDup(warned) /\ Range(warned) \subseteq UNION {Range(Heads(f) \o Fields(f)) : f \in opened}
          /\ (Ended /\ err = "") => Range(warned) = UNION {Range(Heads(f) \o Fields(f)) : f \in Reach(1)}
(* no file is open twice, and an open file is not finished *)
StackOk == Cardinality(Stacked) = Len(stack) /\ Stacked \cap Range(done) = {} /\ Stacked \cup Range(done) \subseteq opened
=============================================================================
