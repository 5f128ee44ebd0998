------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A codec session: one object of a drawn schema's root struct and the     *)
(* operations an application performs on it.  The object's abstract state  *)
(* is its sequence of value-leaf values.  Each step is logged with the     *)
(* result the generated code must show; the invariants below check the     *)
(* specification itself on every state reached.                            *)
(***************************************************************************)
EXTENDS Literals, Json, IOUtils

CONSTANT Unset
PROFILE == IOEnv.PROFILE
OUT     == IOEnv.OUT
STEPS   == atoi(IOEnv.STEPS)
CELL0   == atoi(IOEnv.CELL0)        \* first grid cell of this run
CSTRIDE == atoi(IOEnv.CSTRIDE)      \* distance between cells
PERSTR  == atoi(IOEnv.PERSTR)       \* cells per struct

-----------------------------------------------------------------------------
(* Profiles *)

Base == [ family |-> "random", big |-> 50, void |-> 12, const |-> 12, embed |-> 8, struct |-> 14,
          dyn |-> 14, arr |-> 25, enum |-> 12, enumw |-> 40, float |-> 12, bool |-> 10, bool1 |-> FALSE,
          gapvoid |-> 0, nmin |-> 1, nmax |-> 7, smin |-> 1, structs |-> 4, last |-> 0, spread |-> 35,
          lens |-> <<1, 2, 3, 4, 5, 5, 6, 9>>, long |-> 1, dlen |-> 6, maxl |-> 60, split |-> FALSE, lits |-> FALSE,
          ops |-> <<"set", "enc", "dec">> ]

RoundOps == << "set", "enc", "dec", "set", "enc", "dec", "size", "rt" >>

Profile(name) ==
  CASE name = "enc"     -> [Base EXCEPT !.ops = <<"set", "enc", "set", "enc", "enc">>]
    [] name = "dec"     -> [Base EXCEPT !.ops = <<"dec", "dec", "set", "rt">>]
    [] name = "const"   -> [Base EXCEPT !.const = 45, !.struct = 18, !.embed = 14, !.dyn = 8, !.float = 20, !.bool = 20,
                                        !.ops = <<"flip", "flip", "flip", "vflip", "enc", "set">>]
    [] name = "dsize"   -> [Base EXCEPT !.dyn = 40, !.struct = 22, !.arr = 30, !.nmax = 5,
                                        !.ops = <<"set", "dsz", "dsz">>]
    [] name = "hostile" -> [Base EXCEPT !.enum = 0, !.bool1 = TRUE, !.float = 0, !.dyn = 34, !.struct = 20, !.nmax = 5,
                                        !.long = 0,
                                        !.ops = <<"prefix", "prefix", "hdec", "hdec", "hdsz", "hdsz", "hmut", "hmut">>]
    [] name = "sizes"   -> [Base EXCEPT !.dyn = 35, !.struct = 20, !.ops = <<"set", "into", "size", "dec", "dszfull", "fact", "set", "into">>]
    [] name = "dirty"   -> [Base EXCEPT !.void = 26, !.gapvoid = 50, !.ops = <<"into", "into", "set", "dec", "enc", "get">>]
    [] name = "alias"   -> [Base EXCEPT !.dyn = 60, !.float = 2, !.bool = 2, !.enum = 4, !.void = 4, !.const = 4, !.nmax = 5,
                                        !.ops = <<"alias", "alias", "dec">>]
    [] name = "opts"    -> [Base EXCEPT !.arr = 40, !.ops = RoundOps \o <<"dszfull">>]
    [] name = "compose" -> [Base EXCEPT !.embed = 26, !.struct = 30, !.dyn = 16, !.structs = 7, !.nmax = 4, !.void = 8, !.const = 8,
                                        !.long = 0,
                                        !.ops = RoundOps \o <<"dszfull", "into">>]
    [] name = "multi"   -> [Base EXCEPT !.embed = 18, !.struct = 30, !.enum = 20, !.structs = 6, !.nmax = 5, !.long = 0, !.split = TRUE,
                                        !.ops = RoundOps \o <<"dszfull">>]
    [] name = "chain"   -> [Base EXCEPT !.embed = 8, !.struct = 60, !.enum = 40, !.arr = 20, !.smin = 3, !.structs = 6, !.nmax = 3, !.long = 0,
                                        !.last = 65, !.split = TRUE, !.spread = 90, !.void = 5, !.const = 5, !.ops = RoundOps]
    [] name = "multien" -> [Base EXCEPT !.embed = 8, !.struct = 14, !.enum = 92, !.arr = 45, !.dyn = 6, !.const = 4, !.structs = 5, !.nmax = 5,
                                        !.long = 0, !.split = TRUE, !.lens = <<1, 2, 3, 4, 5>>, !.ops = RoundOps]
    [] name = "lits"    -> [Base EXCEPT !.lits = TRUE, !.const = 45, !.void = 16, !.enum = 20, !.enumw = 64, !.float = 25, !.arr = 35, !.dyn = 6,
                                        !.structs = 3, !.long = 0, !.ops = <<"enc", "set", "fact", "enc", "flip", "flip", "dec", "mem", "size">>]
    [] name = "enums"   -> [Base EXCEPT !.lits = TRUE, !.enum = 100, !.enumw = 64, !.const = 10, !.void = 8, !.dyn = 5, !.arr = 40, !.long = 0,
                                        !.structs = 3, !.ops = <<"mem", "set", "enc", "dec", "set", "enc", "dec", "into", "rt">>]
    [] name = "access"  -> [Base EXCEPT !.embed = 12, !.struct = 26, !.arr = 36, !.dyn = 20, !.nmax = 5, !.long = 0,
                                        !.ops = <<"set", "put", "put", "put", "put", "get", "dec", "put", "put", "rt", "enc", "fact", "fresh", "enc", "put", "fresh", "rt">>]
    [] name = "forms"   -> [Base EXCEPT !.dyn = 22, !.struct = 18, !.long = 0, !.ops = <<"set">> \o RoundOps \o <<"dsz", "dszfull", "into", "into", "flip", "fact">>]
    [] name = "equal"   -> [Base EXCEPT !.embed = 12, !.struct = 22, !.dyn = 26, !.float = 16, !.long = 0, !.nmax = 5,
                                        !.ops = <<"set", "eq", "eq", "eq", "dec", "eq", "eq", "eq", "put", "eq">>]
    [] name = "huge"    -> [Base EXCEPT !.dyn = 26, !.struct = 16, !.embed = 4, !.arr = 60, !.nmax = 3, !.structs = 3, !.dlen = 40, !.maxl = 700, !.long = 2,
                                        !.lens = <<7, 17, 33, 130, 257, 300, 520>>, !.ops = <<"set", "enc", "dec", "size", "rt", "into", "dszfull", "dec">>]
    [] name = "hugesz"  -> [Base EXCEPT !.dyn = 40, !.struct = 16, !.embed = 4, !.arr = 60, !.nmax = 3, !.structs = 3, !.dlen = 40, !.maxl = 500, !.long = 2,
                                        !.lens = <<7, 17, 33, 130, 257, 300>>, !.ops = <<"dsz">>]
    [] name = "hugeacc" -> [Base EXCEPT !.dyn = 20, !.struct = 12, !.embed = 4, !.arr = 70, !.nmax = 3, !.structs = 3, !.dlen = 40, !.maxl = 700, !.long = 0,
                                        !.lens = <<7, 17, 33, 130, 257, 300, 520>>, !.ops = <<"set", "put", "put", "get", "dec", "put", "enc", "fresh", "rt">>]
    [] name = "grid"      -> [Base EXCEPT !.family = "grid", !.ops = <<"set", "enc", "dec">>]
    [] name = "gridenc"   -> [Base EXCEPT !.family = "grid", !.ops = <<"set", "enc">>]
    [] name = "griddec"   -> [Base EXCEPT !.family = "grid", !.ops = <<"dec", "rt">>]
    [] name = "gridconst" -> [Base EXCEPT !.family = "gridconst", !.ops = <<"set", "enc", "flip", "flip", "flip", "flip">>]
    [] name = "gridarr"   -> [Base EXCEPT !.family = "gridarr", !.lens = <<2, 3, 5, 6>>, !.ops = <<"set", "enc", "dec">>]
    [] name = "griddirty" -> [Base EXCEPT !.family = "grid", !.gapvoid = 50, !.ops = <<"into", "set", "dec">>]
    [] name = "gridarrdirty" -> [Base EXCEPT !.family = "gridarr", !.lens = <<2, 3, 5, 6>>, !.gapvoid = 50, !.ops = <<"into", "set", "dec">>]

P == Profile(PROFILE)
IsGrid == P.family # "random"

VARIABLES sch, leaves, obj, log, step,
          split      \* how the definitions are spread over files (profile multi)
vars == <<sch, leaves, obj, log, step, split>>

-----------------------------------------------------------------------------
Init == /\ sch = [enums |-> <<>>, structs |-> <<>>, root |-> 0]
        /\ leaves = <<>> /\ obj = Unset /\ log = <<>> /\ step = 0 /\ split = <<>>

TraceNo(u) == TLCGet(7)
CellsOf(t) == [i \in 1..PERSTR |-> (CELL0 + CSTRIDE * (t * PERSTR + i - 1)) % GridCells]

RECURSIVE DrawBounded(_, _)
(* compositions of at most so many leaves, so that a message stays readable *)
DrawBounded(p, n) ==
    With(IF p.lits THEN DrawLitSchema(p) ELSE DrawSchema(p), LAMBDA s :
      IF n = 0 \/ Len(StructLeaves(s, s.root)) <= P.maxl THEN s ELSE DrawBounded(p, n - 1))

Setup ==
    /\ step = 0
    /\ \E t \in {TraceNo(step)} : \E s \in {IF IsGrid THEN GridSchema(P, CellsOf(t)) ELSE DrawBounded(P, 8)} :
         /\ TLCSet(7, t + 1)
         /\ sch' = s
         /\ \E d \in {IF P.split THEN DrawSplit(s, P.spread) ELSE <<>>} : split' = d
         /\ leaves' = Flatten(s)
    /\ obj' = Unset
    /\ log' = <<>>
    /\ step' = 1

(* `way` picks one of the equivalent forms an operation has in the API of a
   target (static or instance method, caller's buffer or none, array, memory or
   pointer, direct field or accessor): the result does not depend on it *)
Ways == 0..5
Log(e) == log' = Append(log, e @@ [way |-> RandomElement(Ways)])
Tick   == step' = step + 1
Same   == UNCHANGED <<sch, leaves, split>>

(* Values are logged per value leaf: bytes of the bits, padded to whole bytes *)
PadTo8(b) == b \o Zeros((8 - (Len(b) % 8)) % 8)
Show(vals) ==
    With(ValueLeaves(leaves), LAMBDA vl :
      TLCEval([i \in 1..Len(vl) |-> IF vl[i].op = "num" THEN BytesOfBits(PadTo8(vals[i])) ELSE vals[i]]))

RndVal(x)  == RndVals(sch, leaves, P.long)
RndBytes(n) == TLCEval([i \in 1..n |-> RandomElement(0..255)])
Trail(x)   == IF Chance(50) THEN <<>> ELSE With(RandomElement(1..4), RndBytes)
(* an image of v with arbitrary void bits *)
Image(v, x) == With(WireOf(leaves, v), LAMBDA b :
                 BytesOfBits(TLCEval([i \in 1..Len(b) |-> IF b[i] = 2 THEN RandomElement({0,1}) ELSE b[i]])))

New  == /\ obj' = Unset /\ Log([op |-> "new"])
Set  == \E v \in {RndVal(step)} : obj' = v /\ Log([op |-> "set", v |-> Show(v)])
Enc  == /\ obj' = obj
        /\ \E o \in {EncodeFresh(leaves, obj)} : Log([op |-> "enc", n |-> Len(o), out |-> o])
Fills == << <<255>>, <<0>>, <<165, 90>>, <<1, 128, 127, 254, 3>> >>
Into == /\ obj' = obj
        /\ \E b \in {WireOf(leaves, obj)} : \E o \in {BytesOfBits(Fill(b, 0))} :
              Log([op |-> "into", fill |-> Pick(Fills), start |-> Pick(<<0, 0, 1, 3>>), guard |-> Pick(<<0, 0, 4>>),
                   n |-> Len(o), out |-> o, mask |-> WireMask(b)])
Size == /\ obj' = obj /\ Log([op |-> "size", n |-> EncodeSize(leaves, obj)])
Get  == /\ obj' = obj /\ Log([op |-> "get", v |-> Show(obj)])
(* decode a complete image, over whatever the object holds *)
DecOf(img, tr) ==
    \E d \in {Decode(leaves, img \o tr)} :
       /\ obj' = d.vals
       /\ Log([op |-> "dec", in |-> img \o tr, start |-> Pick(<<0, 0, 2>>), n |-> d.n, v |-> Show(d.vals)])
Dec  == \E v \in {IF obj # Unset /\ Chance(40) THEN obj ELSE RndVal(step)} :
        \E img \in {Image(v, step)} : \E tr \in {Trail(step)} : DecOf(img, tr)
Alias == \E v \in {RndVal(step)} : \E img \in {Image(v, step)} : \E d \in {Decode(leaves, img)} :
            /\ obj' = Unset
            /\ Log([op |-> "alias", in |-> img, n |-> d.n, v |-> Show(d.vals)])

(* encode, and decode the result into a fresh object, which is then forgotten *)
EncDec == \E d \in {Decode(leaves, EncodeFresh(leaves, obj))} :
             /\ obj' = Unset
             /\ Log([op |-> "rt", n |-> d.n, v |-> Show(d.vals)])

(* one field, or one element of an array field, is given a new value through
   its accessor: nothing else changes *)
ZeroFloat(lf, v) == lf.k = "float" /\ \A i \in 1..(Len(v) - 1) : v[i] = 0
ChangeLeaf(lf, v) == IF lf.op = "num" /\ lf.k \in {"int", "uint"} /\ Chance(50)
                     THEN With(RandomElement(1..lf.tw), LAMBDA i : [v EXCEPT ![i] = 1 - v[i]])
                     ELSE IF ZeroFloat(lf, v) /\ Chance(50) THEN [v EXCEPT ![lf.tw] = 1 - v[lf.tw]]
                     ELSE LeafVal(sch, lf, P.long)
NV == Len(ValueLeaves(leaves))
Put == \E i \in {RandomElement(1..NV)} : \E v \in {LeafVal(sch, ValueLeaves(leaves)[i], P.long)} :
       \E o \in {[obj EXCEPT ![i] = v]} : obj' = o /\ Log([op |-> "put", i |-> i, v |-> Show(o)])

(* a new object holds zero, false or nothing, and can be used as soon as its
   enum fields, whose zero need not be a member, are set *)
NewVal(x) == With(ValueLeaves(leaves), LAMBDA vl :
    TLCEval([i \in 1..NV |-> CASE vl[i].op # "num" -> <<>>
                               [] vl[i].k = "enum" -> LeafVal(sch, vl[i], 0)
                               [] OTHER -> Zeros(vl[i].tw)]))
Fresh == \E v \in {NewVal(step)} : obj' = v /\ Log([op |-> "fresh", v |-> Show(v)])

(* what a target says about the struct itself; some show the constants, those
   of embedded structs included: <<struct, field, value>> *)
RECURSIVE Shown(_)
Shown(si) == LET fs == sch.structs[si].fields
                 one(fi) == CASE fs[fi].kind = "c" -> <<[s |-> si, f |-> fi, v |-> fs[fi].cv]>>
                              [] fs[fi].kind = "e" -> Shown(fs[fi].ref)
                              [] OTHER -> <<>> IN
             FlattenSeq([fi \in 1..Len(fs) |-> one(fi)])
Fact == /\ obj' = obj
        /\ Log([op |-> "fact", n |-> FixedPart(sch, sch.root) \div 8, dyn |-> IsDynamic(leaves), consts |-> Shown(sch.root)])

(* comparison with another object, which holds v or what decoding v gives;
   0: different, 1: equal, 2: they differ in the sign of a zero only, so either *)
Same2(a, b) ==
    With(ValueLeaves(leaves), LAMBDA vl :
      IF \E i \in 1..Len(vl) : a[i] # b[i] /\ ~(ZeroFloat(vl[i], a[i]) /\ ZeroFloat(vl[i], b[i])) THEN 0
      ELSE IF a = b THEN 1 ELSE 2)
(* neighbouring runs of leaves of the same shape (elements of an array, say)
   that hold different values: <<start, length of a run>> *)
Swaps(x) == With(ValueLeaves(leaves), LAMBDA vl :
    {w \in (1..NV) \X (1..(NV \div 2)) :
        /\ w[1] + 2 * w[2] - 1 <= NV
        /\ \A j \in w[1]..(w[1] + w[2] - 1) : vl[j] = vl[j + w[2]]
        /\ \E j \in w[1]..(w[1] + w[2] - 1) : obj[j] # obj[j + w[2]]})
Other(x) == CASE x = 1 -> obj
              [] x = 2 -> IF NV = 0 THEN obj
                          ELSE With(RandomElement(1..NV), LAMBDA i :
                                 With(ChangeLeaf(ValueLeaves(leaves)[i], obj[i]), LAMBDA v : [obj EXCEPT ![i] = v]))
              [] x = 3 -> RndVal(x)
              [] x = 4 -> With(ValueLeaves(leaves), LAMBDA vl :
                            TLCEval([i \in 1..NV |-> IF ZeroFloat(vl[i], obj[i]) THEN [obj[i] EXCEPT ![vl[i].tw] = 1 - @] ELSE obj[i]]))
              [] x = 5 -> With(Swaps(x), LAMBDA ws : IF ws = {} THEN RndVal(x) ELSE With(RandomElement(ws), LAMBDA w :
                            TLCEval([i \in 1..NV |-> IF i \in w[1]..(w[1] + w[2] - 1) THEN obj[i + w[2]]
                                                     ELSE IF i \in (w[1] + w[2])..(w[1] + 2 * w[2] - 1) THEN obj[i - w[2]] ELSE obj[i]])))
Eq == \E x \in {Pick(<<1, 1, 2, 2, 2, 3, 4, 5, 5>>)} : \E v \in {Other(x)} : \E d \in {Chance(50)} :
        /\ obj' = obj
        /\ Log([op |-> "eq", v |-> Show(v), dec |-> IF d THEN 1 ELSE 0,
                n |-> IF d THEN Same2(obj, TruncVals(leaves, v)) ELSE Same2(obj, v)])

(* the numbers of the members of every enum *)
Mem == /\ obj' = obj
       /\ Log([op |-> "mem", v |-> TLCEval([e \in DOMAIN sch.enums |-> TLCEval([m \in DOMAIN sch.enums[e].vals |->
                                      BytesOfBits(PadTo8(sch.enums[e].vals[m]))])])])

(* Positions of the wire bits of v that belong to leaves of kind `what` *)
LeafLens(v) == With(ValueIndex(leaves), LAMBDA ix :
    TLCEval([i \in 1..Len(leaves) |-> Len(LeafWire(leaves[i], IF IsValue(leaves[i]) THEN v[ix[i]] ELSE <<>>))]))
RECURSIVE KindBits(_, _, _, _)
KindBits(ls, i, pos, what) ==
    IF i > Len(leaves) THEN {}
    ELSE (IF leaves[i].op = what THEN (pos + 1)..(pos + ls[i]) ELSE {}) \cup KindBits(ls, i + 1, pos + ls[i], what)
BitsOfKind(v, what) == With(LeafLens(v), LAMBDA ls : KindBits(ls, 1, 0, what))

FlipBits(bs, ps) ==
    TLCEval([k \in 1..Len(bs) |->
        ByteOf(TLCEval([j \in 1..8 |-> IF 8 * (k-1) + j \in ps THEN 1 - BitAt(bs, 8 * (k-1) + j - 1)
                                       ELSE BitAt(bs, 8 * (k-1) + j - 1)]), 0)])

BadOf(bs, start) ==
    /\ obj' = Unset
    /\ \E d \in {Decode(leaves, bs)} :
          Log([op |-> "decbad", in |-> bs, start |-> start, n |-> d.n, why |-> d.st])
(* corrupt constant bits: decode must fail *)
Flip == \E v \in {RndVal(step)} : \E ps \in {BitsOfKind(v, "const")} : \E img \in {Image(v, step)} :
        IF ps = {} THEN DecOf(img, <<>>)
        ELSE \E h \in {IF Chance(75) THEN {RandomElement(ps)} ELSE {RandomElement(ps), RandomElement(ps)}} :
             \E bad \in {FlipBits(img, h)} : BadOf(bad, 0)
(* all void bits flipped at once: no effect *)
VFlip == \E v \in {RndVal(step)} : \E ps \in {BitsOfKind(v, "pad")} :
         \E img \in {FlipBits(EncodeFresh(leaves, v), ps)} : DecOf(img, <<>>)

Probes(n) == IF n <= 24 THEN [i \in 1..(n+1) |-> i - 1]
             ELSE SetToSortSeq({0, 1, 2, n \div 2, n-3, n-2, n-1, n}
                                \cup {RandomElement(0..n) : i \in 1..16}, LAMBDA a, b : a < b)
ProbeAll(bs, ks) == TLCEval([i \in DOMAIN ks |->
                 With(SizeAnswers(leaves, SubSeq(bs, 1, ks[i])), LAMBDA a : <<ks[i], a.lo, a.hi>>)])
DszOf(bs) == /\ obj' = obj
             /\ \E ks \in {Probes(Len(bs))} :
                  Log([op |-> "dsz", in |-> bs, start |-> Pick(<<0, 0, 3>>), ans |-> ProbeAll(bs, ks)])
Dsz == \E v \in {RndVal(step)} : \E bs \in {Image(v, step)} : \E tr \in {Trail(step)} : DszOf(bs \o tr)
DszFull == \E bs \in {EncodeFresh(leaves, obj)} :
           /\ obj' = obj
           /\ Log([op |-> "dsz", in |-> bs, start |-> 0, ans |-> ProbeAll(bs, <<Len(bs)>>)])

(* strict prefixes: decode must fail *)
Prefix == \E v \in {RndVal(step)} : \E bs \in {Image(v, step)} :
          \E k \in {IF Len(bs) = 0 THEN 0 ELSE RandomElement(0..(Len(bs) - 1))} :
             \E s \in {Pick(<<0, 0, 2>>)} : BadOf(SubSeq(bs, 1, k), s)

HByte(x) == Pick(<<0, 1, 2, 3, 127, 128, 129, 255, RandomElement(0..255), RandomElement(0..255)>>)
HBytes(n) == TLCEval([i \in 1..n |-> HByte(i)])
(* a length of 4 to 10 bytes, mostly too large for the message or for an integer type *)
RECURSIVE Repeat(_, _)
Repeat(n, f) == IF n = 0 THEN <<>> ELSE TLCEval(<<Pick(f)>> \o Repeat(n - 1, f))
LongVarint(x) ==
    With(RandomElement(3..9), LAMBDA n : With(Pick(<< <<128>>, <<255>>, <<128, 255, 129, 192, 136, 144>> >>), LAMBDA f :
        Repeat(n, f) \o <<Pick(<<0, 0, 1, 7, 8, 15, 16, 120, 127>>)>>))
HFixed == SumFixed(leaves, Len(leaves)) \div 8
(* a mutilated image *)
Mutate(x) ==
    With(Image(RndVal(x), x), LAMBDA bs : With(RandomElement(1..6), LAMBDA m :
    IF bs = <<>> THEN bs
    ELSE With(RandomElement(1..Len(bs)), LAMBDA i : With(HByte(x), LAMBDA h :
         CASE m = 1 -> [bs EXCEPT ![i] = h]
           [] m = 2 -> SubSeq(bs, 1, i - 1) \o <<h>> \o SubSeq(bs, i, Len(bs))
           [] m = 3 -> SubSeq(bs, 1, i - 1) \o SubSeq(bs, i + 1, Len(bs))
           [] m = 4 -> With(RandomElement(1..Len(bs)), LAMBDA j : [[bs EXCEPT ![i] = 255] EXCEPT ![j] = h])
           [] m = 5 -> SubSeq(bs, 1, i - 1) \o LongVarint(x) \o SubSeq(bs, i, Len(bs))
           [] m = 6 -> SubSeq(bs, 1, HFixed) \o LongVarint(x) \o SubSeq(bs, HFixed + 1, Len(bs))))))
HRandom(x) == With(RandomElement(0..(HFixed + 8)), HBytes)
HDecOf(bs) == \E d \in {Decode(leaves, bs)} :
              /\ obj' = IF d.st = "ok" THEN d.vals ELSE Unset
              /\ Log(IF d.st = "ok" THEN [op |-> "hdec", in |-> bs, start |-> 0, n |-> d.n, v |-> Show(d.vals)]
                     ELSE [op |-> "hdecbad", in |-> bs, start |-> 0, n |-> -1, why |-> d.st])
HDec == \E bs \in {HRandom(step)} : HDecOf(bs)
HMut == \E bs \in {Mutate(step)} : HDecOf(bs)
HDsz == \E bs \in {IF Chance(50) THEN HRandom(step) ELSE Mutate(step)} : DszOf(bs)

NeedsObj(op) == op \in {"enc", "into", "size", "get", "dszfull", "rt", "put", "eq"}
Do(op) == IF NeedsObj(op) /\ obj = Unset THEN Set
          ELSE IF NV = 0 /\ op = "put" THEN Get
          ELSE CASE op = "set" -> Set [] op = "put" -> Put [] op = "fact" -> Fact [] op = "fresh" -> Fresh [] op = "eq" -> Eq [] op = "enc" -> Enc [] op = "into" -> Into [] op = "size" -> Size
                 [] op = "get" -> Get [] op = "dec" -> Dec [] op = "alias" -> Alias [] op = "flip" -> Flip
                 [] op = "vflip" -> VFlip [] op = "dsz" -> Dsz [] op = "dszfull" -> DszFull
                 [] op = "prefix" -> Prefix [] op = "hdec" -> HDec [] op = "hdsz" -> HDsz [] op = "hmut" -> HMut
                 [] op = "new" -> New [] op = "mem" -> Mem [] op = "rt" -> EncDec

(* grid sessions walk through their operations in turn; the others draw them *)
OpAt(i) == IF IsGrid THEN P.ops[((i - 1) % Len(P.ops)) + 1] ELSE Pick(P.ops)

Step == /\ step \in 1..STEPS
        /\ \E op \in {OpAt(step)} : Do(op)
        /\ Tick /\ Same

Save == /\ step = STEPS + 1
        /\ LET r == [schema |-> sch, log |-> log, split |-> split]
           IN Serialize(ToJson(r) \o "\n", OUT,
                        [format |-> "TXT", charset |-> "UTF-8",
                         openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
        /\ step' = step + 1
        /\ UNCHANGED <<sch, leaves, obj, log, split>>

Next == Setup \/ Step \/ Save
Spec == Init /\ [][Next]_vars

ASSUME TLCSet(7, 0)

-----------------------------------------------------------------------------
(* The specification's own properties, checked in every state reached *)

IsByteSized == step > 0 => SumFixed(leaves, Len(leaves)) % 8 = 0

RoundTrip ==
    (step > 1 /\ obj # Unset /\ (P.long < 2 \/ step = 3)) =>
      \E o \in {EncodeFresh(leaves, obj)} : \E d \in {Decode(leaves, o)} :
         /\ Len(o) = EncodeSize(leaves, obj)
         /\ d.st = "ok" /\ d.n = Len(o)
         /\ d.vals = TruncVals(leaves, obj)
         /\ EncodeFresh(leaves, d.vals) = o

SizeProtocol ==
    (step > 1 /\ obj # Unset /\ step % 3 = 0 /\ P.long < 2) =>
      \E o \in {EncodeFresh(leaves, obj)} :
         \A k \in {0, 1, Len(o) \div 3, Len(o) \div 2, Max2(0, Len(o) - 1), Len(o)} :
           k <= Len(o) =>
           \E f \in {FrameInfo(leaves, SubSeq(o, 1, k))} :
              IF k < Len(o) THEN f.st = "partial" /\ k < f.min /\ f.min <= Len(o)
              ELSE f.st = "complete" /\ f.min = Len(o)

SplitInSight == (step > 0 /\ P.split) => InSight(sch, split) /\ Downward(split)

Spelling == (step = 1 /\ P.lits) => AllSpelt(sch)

(* what a logged decode claims is what the log's own history implies *)
BadMeansBad ==
    \A i \in DOMAIN log : log[i].op \in {"decbad", "hdecbad"} => log[i].n = -1
=============================================================================
