------------------------------- MODULE Output -------------------------------
(***************************************************************************)
(* One run of the command line tool, from the arguments to the files on    *)
(* disk (main.go, generator/, fileio/): the arguments are checked, the     *)
(* files compiled, every unit turned into files by the target, and the     *)
(* files written, all or none.                                             *)
(*                                                                         *)
(* A path is a sequence of components.  The root file (the last unit)      *)
(* imports all the others, which are compiled in the order imported.       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

OUT  == IOEnv.OUT
RATE == atoi(IOEnv.RATE)     \* chance of mistakes, in percent of the base chances

Targets == {"c", "cpp", "csharp", "cs", "commonjs", "cjs", "esmodule", "javascript", "js", "mjs", "esm", "go", "java", "kotlin", "kt", "python", "py"}
Lang(t) == CASE t \in {"csharp", "cs"} -> "cs"
             [] t \in {"commonjs", "cjs"} -> "cjs"
             [] t \in {"esmodule", "javascript", "js", "mjs", "esm"} -> "esm"
             [] t \in {"kotlin", "kt"} -> "kt"
             [] t \in {"python", "py"} -> "py"
             [] OTHER -> t

VARIABLES args,      \* the command line
          units,     \* the files in the order they are compiled
          phase, k,  \* progress
          pending,   \* files to be written: sequence of paths below the output directory
          written,   \* files on disk
          printed,   \* texts on standard output
          status, why, warn
vars == <<args, units, phase, k, pending, written, printed, status, why, warn>>

Range(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(Range(s)) = Len(s)
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))

-----------------------------------------------------------------------------
(* Where a unit's files go *)
Pkg(l, u) == CASE l = "go"   /\ u.go # <<>>   -> u.go
               [] l = "java" /\ u.java # <<>> -> u.java
               [] l = "kt"   /\ u.kt # <<>>   -> u.kt
               [] OTHER -> u.pkg
Named(p, ext) == Front(p) \o <<Last(p) \o ext>>
TypeFiles(p, ns, ext) == [i \in DOMAIN ns |-> p \o <<ns[i] \o ext>>]
(* in Java an inner struct has a file of its own, before that of the outer one *)
TopNames(u) == [i \in DOMAIN u.types |-> u.types[i].name]
AllNames(u) == Cat([i \in DOMAIN u.types |-> u.types[i].inner \o <<u.types[i].name>>])

FilesOf(l, u) ==
    LET p == Pkg(l, u) IN
    CASE l = "c"    -> <<Named(p, ".bb.h"), Named(p, ".bb.c")>>
      [] l = "cpp"  -> <<Named(p, ".bb.hpp"), Named(p, ".bb.cpp")>>
      [] l = "cs"   -> <<Named(p, ".bb.cs")>>
      [] l \in {"cjs", "esm"} -> <<Named(p, ".bb.js")>>
      [] l = "py"   -> <<Named(p, "_bb.py")>>
      [] l = "go"   -> <<p \o <<Last(p) \o ".bb.go">>>>
      [] l = "java" -> TypeFiles(p, AllNames(u), ".java")
      [] l = "kt"   -> TypeFiles(p, TopNames(u), ".kt")

Omitted(u) == u.omit = "true" /\ u.types = <<>>
HasSingle(l) == l \notin {"java", "kt"}

(* the first listed prefix that matches is removed *)
Starts(p, q) == Len(q) <= Len(p) /\ SubSeq(p, 1, Len(q)) = q
Strip(p, rm) ==
    LET m == {i \in DOMAIN rm : Starts(p, rm[i])} IN
    IF m = {} THEN p ELSE LET i == CHOOSE i \in m : \A j \in m : i <= j IN SubSeq(p, Len(rm[i]) + 1, Len(p))

(* a path that leaves the directory it starts in *)
RECURSIVE Depth(_, _)
Depth(p, d) == IF p = <<>> \/ d < 0 THEN d ELSE Depth(Tail(p), d + (IF Head(p) = ".." THEN -1 ELSE 1))
Inside(p) == Depth(p, 0) > 0

-----------------------------------------------------------------------------
(* Drawing *)
Chance(p) == {RandomElement(1..10000) <= p * RATE}
Comps == {"a", "ab", "b", "x_1", "main"}
Doms  == {"a", "ab", "net.io", "net", "io", "gen"}
Paths(S) == {<<x>> : x \in S} \cup {<<x, y>> : x, y \in S} \cup {<<x, y, z>> : x, y, z \in S}
CPaths == Paths(Comps)
GPaths == Paths(Doms)
TypeName(u, i) == CASE u = 1 -> <<"Alpha", "Beta", "Gamma">>[i] [] u = 2 -> <<"Delta", "Eps", "Zeta">>[i]
                    [] u = 3 -> <<"Eta", "Theta", "Iota">>[i]   [] u = 4 -> <<"Kappa", "Lambda", "Mu">>[i]
Inner(u, i) == TypeName(u, i) \o "In"

NoArgs == [target |-> "c", out |-> "dir", single |-> FALSE, rm |-> <<>>, rel |-> FALSE, inner |-> FALSE, other |-> 0, cli |-> "ok", spell |-> 0, old |-> "no"]
Unit == [pkg |-> <<"a">>, types |-> <<>>, omit |-> "none", go |-> <<>>, java |-> <<>>, kt |-> <<>>, cpp |-> FALSE, cs |-> FALSE,
         unknown |-> FALSE, fault |-> "none"]

Init == /\ args = NoArgs /\ units = <<>> /\ phase = "units" /\ k = 1
        /\ pending = <<>> /\ written = {} /\ printed = 0 /\ status = -1 /\ why = "" /\ warn = FALSE

Faults == <<"syntax", "type", "nopkg", "twopkg", "optkind", "opttwice", "samepkg">>
DrawUnit ==
    /\ phase = "units"
    /\ \E p \in {RandomElement(CPaths)} : \E same \in Chance(15) : \E nt \in {RandomElement(0..3)} : \E k1 \in {RandomElement(0..3)} : \E k2 \in {RandomElement(0..3)} :
       \E o \in {RandomElement({"none", "true", "true", "false"})} :
       \E hg \in {RandomElement(1..3)} : \E g \in {RandomElement(GPaths)} : \E hj \in {RandomElement(1..3)} : \E j \in {RandomElement(CPaths)} :
       \E hk \in {RandomElement(1..3)} : \E kp \in {RandomElement(CPaths)} : \E up \in Chance(10) : \E copy \in Chance(12) : \E ups \in {RandomElement({<<"..">>, <<"..", "..">>})} :
       \E ns \in {RandomElement(0..3)} : \E un \in Chance(15) : \E bad \in Chance(8) : \E fl \in {RandomElement(Range(Faults))} :
       LET i == Len(units) + 1
           pk == IF same /\ units # <<>> THEN units[1].pkg ELSE p
           ty(n) == LET q == IF n = 1 THEN k1 ELSE k2 IN
                    [name |-> TypeName(i, n), kind |-> IF q = 0 THEN "enum" ELSE "struct", inner |-> IF q = 3 THEN <<Inner(i, n)>> ELSE <<>>]
           taken == {units[x].pkg : x \in DOMAIN units}
           fresh == IF pk \notin taken \/ same THEN pk ELSE <<"u" \o ToString(i)>>
           u == [Unit EXCEPT !.pkg = fresh, !.types = [n \in 1..nt |-> ty(n)], !.omit = o,
                   !.go = IF copy /\ units # <<>> THEN Pkg("go", units[1]) ELSE IF hg = 1 THEN (IF up THEN ups \o g ELSE g) ELSE <<>>,
                   !.java = IF copy /\ units # <<>> THEN Pkg("java", units[1]) ELSE IF hj = 1 THEN j ELSE <<>>, !.kt = IF hk = 1 THEN kp ELSE <<>>,
                   !.cpp = ns \in {1, 3}, !.cs = ns \in {2, 3}, !.unknown = un, !.fault = IF bad THEN fl ELSE "none"] IN
       units' = Append(units, u)
    /\ \E more \in {RandomElement(1..100) <= 55} : phase' = IF more /\ Len(units) < 3 THEN "units" ELSE "args"
    /\ UNCHANGED <<args, k, pending, written, printed, status, why, warn>>

Prefixes == UNION {{SubSeq(Pkg(l, units[i]), 1, n) : n \in 1..Len(Pkg(l, units[i]))} : l \in {"c", "go", "java", "kt"}, i \in DOMAIN units}
CliFaults == {"noinput", "twoinputs", "notarget", "badtarget", "badsignext", "badunroll", "badflag", "missing"}
DrawArgs ==
    /\ phase = "args"
    /\ \E t0 \in {RandomElement(Targets)} : \E t1 \in {RandomElement(1..8)} : \E o \in {RandomElement(1..20)} : \E s \in {RandomElement(1..4)} : \E nrm \in {RandomElement(0..4)} :
       \E r1 \in {RandomElement(Prefixes)} : \E r2 \in {RandomElement(Prefixes)} : \E r3 \in {RandomElement({<<"a">>, <<"ab">>, <<"nowhere">>, <<"a", "b">>, <<"mai">>})} :
       \E rel \in {RandomElement({TRUE, FALSE})} : \E inn \in {RandomElement(1..4)} : \E oth \in {RandomElement(0..15)} : \E sp \in {RandomElement(0..11)} :
       \E bad \in Chance(6) : \E f \in {RandomElement(CliFaults)} : \E od \in {RandomElement(1..12)} :
       args' = [target |-> CASE t1 = 1 -> "go" [] t1 = 2 -> "java" [] OTHER -> t0, out |-> IF o <= 2 THEN "none" ELSE IF o = 3 THEN "file" ELSE "dir", single |-> s = 1,
                rm |-> SubSeq(<<r1, r3, r2>>, 1, IF nrm > 3 THEN 0 ELSE nrm), rel |-> rel, inner |-> inn = 1, other |-> oth,
                cli |-> IF bad THEN f ELSE "ok", spell |-> sp,
                (* what is on disk before: nothing, older files wherever one will be written, or a directory in a file's place *)
                old |-> CASE od <= 5 -> "no" [] od = 12 -> "dir" [] OTHER -> "files"]
    /\ phase' = "cli" /\ UNCHANGED <<units, k, pending, written, printed, status, why, warn>>

-----------------------------------------------------------------------------
(* The run *)
L == Lang(args.target)
Fail(w) == status' = 1 /\ why' = w /\ phase' = "end" /\ UNCHANGED <<args, units, k, pending, written, printed, warn>>

Cli == /\ phase = "cli"
       /\ IF args.cli # "ok" THEN Fail(args.cli)
          ELSE phase' = "compile" /\ UNCHANGED <<args, units, k, pending, written, printed, status, why, warn>>

Compile ==
    /\ phase = "compile"
    /\ LET u == units[k] IN
       IF u.fault \notin {"none", "samepkg"} THEN Fail(u.fault)
       ELSE IF \E i \in 1..(k - 1) : units[i].pkg = u.pkg THEN Fail("package")
       ELSE IF u.fault = "samepkg" /\ k < Len(units) THEN Fail("cycle")   \* imports the root again
       ELSE IF u.fault = "samepkg" THEN Fail("self")
       ELSE /\ IF k = Len(units) THEN phase' = "generate" /\ k' = 1 ELSE k' = k + 1 /\ UNCHANGED phase
            /\ warn' = (warn \/ u.unknown)
            /\ UNCHANGED <<args, units, pending, written, printed, status, why>>

(* two units may not share a Go or a Java package; a file may not be written twice, nor outside *)
Twin(i) == \E j \in 1..(i - 1) : ~Omitted(units[j]) /\ Pkg(L, units[j]) = Pkg(L, units[i])
Generate ==
    /\ phase = "generate"
    /\ LET u == units[k]
           fs == IF Omitted(u) \/ (args.single /\ HasSingle(L)) THEN <<>> ELSE [i \in DOMAIN FilesOf(L, u) |-> Strip(FilesOf(L, u)[i], args.rm)] IN
       IF ~Omitted(u) /\ L \in {"go", "java"} /\ Twin(k) THEN Fail("twin")
       ELSE IF args.out # "none" /\ \E i \in DOMAIN fs : ~Inside(fs[i]) THEN Fail("outside")
       ELSE IF args.out # "none" /\ ~NoDup(pending \o fs) THEN Fail("twice")
       ELSE /\ pending' = pending \o fs
            /\ IF k = Len(units) THEN phase' = "single" /\ k' = 1 ELSE k' = k + 1 /\ UNCHANGED phase
            /\ UNCHANGED <<args, units, written, printed, status, why, warn>>

(* -single: one file, named by -o; the empty path here *)
AllOmitted == \A i \in DOMAIN units : Omitted(units[i])
Single == /\ phase = "single"
          /\ pending' = IF args.single /\ HasSingle(L) /\ ~(L = "go" /\ AllOmitted) THEN <<<<>>>> ELSE pending
          /\ phase' = "write" /\ UNCHANGED <<args, units, k, written, printed, status, why, warn>>

(* -o names an existing file: it can be overwritten with -single, and holds no directory *)
Write == /\ phase = "write"
         /\ IF args.out = "file" /\ \E i \in DOMAIN pending : pending[i] # <<>> THEN Fail("notdir")
            ELSE IF args.out = "dir" /\ args.old = "dir" /\ pending # <<>> THEN Fail("obstructed")
            ELSE /\ IF args.out = "none" THEN printed' = Len(pending) /\ UNCHANGED written
                    ELSE written' = Range(pending) /\ UNCHANGED printed
                 /\ status' = 0 /\ phase' = "end" /\ UNCHANGED <<args, units, k, pending, why, warn>>

Save == /\ phase = "end"
        /\ Serialize(ToJson([args |-> args, units |-> units, pending |-> pending, written |-> written, printed |-> printed, status |-> status, why |-> why, warn |-> warn, lang |-> L]) \o "\n", OUT,
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
        /\ phase' = "saved" /\ UNCHANGED <<args, units, k, pending, written, printed, status, why, warn>>
Next == DrawUnit \/ DrawArgs \/ Cli \/ Compile \/ Generate \/ Single \/ Write \/ Save
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Ended == phase \in {"end", "saved"}
AllOrNothing == (Ended /\ status # 0) => written = {} /\ printed = 0
Below == \A p \in written : p = <<>> \/ Inside(p)
(* a successful run leaves a file for everything it was asked for: none overwrites another *)
Complete == (Ended /\ status = 0 /\ args.out # "none" /\ ~args.single) =>
            Cardinality(written) = Len(Cat([i \in DOMAIN units |-> IF Omitted(units[i]) THEN <<>> ELSE FilesOf(L, units[i])]))
OneFile == (Ended /\ status = 0 /\ args.single /\ HasSingle(L)) => Cardinality(written) + printed <= 1
=============================================================================
