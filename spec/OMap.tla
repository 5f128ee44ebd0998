-------------------------------- MODULE OMap --------------------------------
(***************************************************************************)
(* The insertion-ordered map that holds every scope of the compiler        *)
(* (util/ordered_map.go): a plain map plus an order list.                  *)
(*                                                                         *)
(* Keys are 0..NKEYS, 0 standing for the default key.  An anonymous entry  *)
(* shows the default key but is never found by it.  Histories of mutators  *)
(* are explored; after each one every observation is logged, and the       *)
(* behaviours are replayed in the Go code.                                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

NKEYS == atoi(IOEnv.NKEYS)
DEPTH == atoi(IOEnv.DEPTH)
OUT   == IOEnv.OUT
RANDOM == IOEnv.RANDOM = "1"

Keys == 0..NKEYS

VARIABLES live,    \* key -> value, for the live keys
          order,   \* sequence of [anon |-> FALSE, key] / [anon |-> TRUE, val]
          log, step
vars == <<live, order, log, step>>

Named(k) == [anon |-> FALSE, key |-> k, val |-> 0]
Anon(v)  == [anon |-> TRUE, key |-> 0, val |-> v]

Without(s, k) == SelectSeq(s, LAMBDA e : e.anon \/ e.key # k)
Restrict(f, S) == [k \in S |-> f[k]]
NamedKeys(o) == {o[i].key : i \in {j \in DOMAIN o : ~o[j].anon}}

(* what iteration shows *)
KeyList(o) == [i \in DOMAIN o |-> IF o[i].anon THEN 0 ELSE o[i].key]
ValList(l, o) == [i \in DOMAIN o |-> IF o[i].anon THEN o[i].val ELSE l[o[i].key]]
RankOf(o, k) == IF k \in NamedKeys(o) THEN (CHOOSE i \in DOMAIN o : ~o[i].anon /\ o[i].key = k) - 1 ELSE -1

Obs(l, o) == [keys |-> KeyList(o), vals |-> ValList(l, o),
              rank |-> [i \in 1..(NKEYS + 1) |-> RankOf(o, i - 1)],
              get  |-> [i \in 1..(NKEYS + 1) |-> IF (i - 1) \in DOMAIN l THEN l[i - 1] ELSE 0]]

Init == live = <<>> /\ order = <<>> /\ log = <<>> /\ step = 1

Does(op, a, b, ret, l, o) ==
    /\ live' = l /\ order' = o
    /\ log' = Append(log, [op |-> op, a |-> a, b |-> b, v |-> step, ret |-> ret, obs |-> Obs(l, o)])

Bind(k) == [j \in DOMAIN live \cup {k} |-> IF j = k THEN step ELSE live[j]]

Put(k) == IF k \in DOMAIN live THEN Does("put", k, 0, 0, live, order)
          ELSE Does("put", k, 0, 1, Bind(k), Append(order, Named(k)))
MustPut(k) == Does("must", k, 0, 0, Bind(k), IF k \in DOMAIN live THEN order ELSE Append(order, Named(k)))
Remove(k) == IF k \in DOMAIN live THEN Does("remove", k, 0, 0, Restrict(live, DOMAIN live \ {k}), Without(order, k))
             ELSE Does("remove", k, 0, 0, live, order)
AddAnon == Does("anon", 0, 0, 0, live, Append(order, Anon(step)))
Clear == Does("clear", 0, 0, 0, <<>>, <<>>)

(* the sub-range [a, b); negative bounds count from the end *)
From(a) == IF a < 0 THEN Len(order) + a ELSE a
Sub(a, b) == LET o == SubSeq(order, From(a) + 1, From(b)) IN
             Does("sub", a, b, 0, Restrict(live, NamedKeys(o)), o)
Bounds == {<<0, 0>>, <<0, -1>>, <<1, Len(order)>>, <<-2, Len(order)>>, <<1, -1>>, <<-3, -1>>}
SubOk(b) == From(b[1]) >= 0 /\ From(b[1]) <= From(b[2]) /\ From(b[2]) <= Len(order)

Mutate == \/ \E k \in Keys : Put(k) \/ MustPut(k) \/ Remove(k)
          \/ AddAnon \/ Clear
          \/ \E b \in {c \in Bounds : SubOk(c)} : Sub(b[1], b[2])
(* longer random histories mostly insert and remove; those over many keys    *)
(* grow large maps, so they cut them back rarely                            *)
RMutate == \E r \in {RandomElement(1..(IF NKEYS > 8 THEN 91 ELSE 100))} :
           CASE NKEYS > 8 /\ r > 88 /\ step % 3 # 0 -> \E k \in {RandomElement(Keys)} : Put(k)
             [] r <= 34 -> \E k \in {RandomElement(Keys)} : Put(k)
             [] r > 34 /\ r <= 50 -> \E k \in {RandomElement(Keys)} : MustPut(k)
             [] r > 50 /\ r <= 74 -> \E k \in {RandomElement(Keys)} : Remove(k)
             [] r > 74 /\ r <= 88 -> AddAnon
             [] r > 88 /\ r <= 90 -> Clear
             [] r > 90 -> \E a \in {RandomElement(0..Len(order))} : \E e \in {RandomElement(a..Len(order))} :
                            Sub(IF a > 0 /\ a < Len(order) /\ step % 2 = 0 THEN a - Len(order) ELSE a,
                                IF e < Len(order) /\ step % 3 = 0 THEN e - Len(order) ELSE e)

Step == step <= DEPTH /\ step' = step + 1 /\ IF RANDOM THEN RMutate ELSE Mutate
Save == /\ step = DEPTH + 1
        /\ Serialize(ToJson(log) \o "\n", OUT, [format |-> "TXT", charset |-> "UTF-8",
                     openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
        /\ step' = step + 1 /\ UNCHANGED <<live, order, log>>
Next == Step \/ Save
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Exactly one entry per live key, and the two views agree *)
OneEntryPerKey ==
    /\ DOMAIN live = NamedKeys(order)
    /\ \A i, j \in DOMAIN order : (i # j /\ ~order[i].anon /\ ~order[j].anon) => order[i].key # order[j].key
Lookups == \A k \in Keys : LET r == RankOf(order, k) IN
             IF k \in DOMAIN live THEN r >= 0 /\ ValList(live, order)[r + 1] = live[k] ELSE r = -1
=============================================================================
