------------------------------ MODULE Literals ------------------------------
(***************************************************************************)
(* Literals of the schema language: how a number is written, and what a    *)
(* writing means.                                                          *)
(*                                                                         *)
(*   Int   == [form |-> "dec" | "hex" | "oct", sign |-> "" | "+" | "-",    *)
(*             digits |-> Seq(0..15) most significant first,               *)
(*             up, caps |-> letter case of the prefix and of the digits]   *)
(*   Float == [sign, ip |-> digits before the point, dot |-> BOOLEAN,      *)
(*             fp |-> digits after it, exp |-> <<>> or <<Int>>, up]        *)
(*                                                                         *)
(* Numbers are bit sequences (least significant bit first).  Enum members  *)
(* are defined by EnumNumbers: a member without a value is one more than   *)
(* the one before it, or zero.                                             *)
(***************************************************************************)
EXTENDS SchemaGen

-----------------------------------------------------------------------------
(* Arithmetic on bit sequences *)

RECURSIVE MulAddAcc(_, _, _, _, _)
MulAddAcc(b, m, c, i, acc) ==
    IF i > Len(b) THEN [b |-> acc, c |-> c]
    ELSE LET x == b[i] * m + c IN MulAddAcc(b, m, x \div 2, i + 1, Append(acc, x % 2))
(* b * m + a, in Len(b) bits, and what does not fit *)
MulAdd(b, m, a) == MulAddAcc(b, m, a, 1, <<>>)

RECURSIVE DivAcc(_, _, _, _, _)
DivAcc(b, d, i, r, acc) ==
    IF i = 0 THEN [q |-> acc, r |-> r]
    ELSE LET x == 2 * r + b[i] IN DivAcc(b, d, i - 1, x % d, <<x \div d>> \o acc)
DivSmall(b, d) == DivAcc(b, d, Len(b), 0, <<>>)

IsZero(b) == \A i \in DOMAIN b : b[i] = 0
Resize(b, n) == TLCEval([i \in 1..n |-> IF i <= Len(b) THEN b[i] ELSE 0])
FitsIn(b, n) == \A i \in DOMAIN b : i <= n \/ b[i] = 0
(* two's complement *)
RECURSIVE NegAcc(_, _, _, _)
NegAcc(b, i, c, acc) == IF i > Len(b) THEN acc
                        ELSE LET x == (1 - b[i]) + c IN NegAcc(b, i + 1, x \div 2, Append(acc, x % 2))
Neg(b) == NegAcc(b, 1, 1, <<>>)

-----------------------------------------------------------------------------
(* What an integer literal means: its value modulo 2^n *)

BaseOf(form) == CASE form = "dec" -> 10 [] form = "hex" -> 16 [] form = "oct" -> 8
RECURSIVE ReadDigits(_, _, _, _)
ReadDigits(ds, base, i, acc) == IF i > Len(ds) THEN acc ELSE ReadDigits(ds, base, i + 1, MulAdd(acc, base, ds[i]).b)
Magnitude(l, n) == ReadDigits(l.digits, BaseOf(l.form), 1, Zeros(n))
Meaning(l, n)   == With(Magnitude(l, n), LAMBDA m : IF l.sign = "-" THEN Neg(m) ELSE m)

(* How one can be written *)
RECURSIVE DigitsOf(_, _)
DigitsOf(b, base) == IF IsZero(b) THEN <<>>
                     ELSE With(DivSmall(b, base), LAMBDA d : Append(DigitsOf(d.q, base), d.r))
Pad(n) == [i \in 1..n |-> 0]
WriteInt(mag, sign) ==
    With(Pick(<<"dec", "hex", "hex", "oct">>), LAMBDA form :
    With(DigitsOf(mag, BaseOf(form)), LAMBDA ds :
    With(IF form = "dec" \/ Chance(70) THEN 0 ELSE RandomElement(1..3), LAMBDA z :
    With(Chance(50), LAMBDA up : With(Chance(50), LAMBDA caps :
      \* a decimal zero is written like an octal one
      TLCEval([form |-> IF form = "dec" /\ ds = <<>> THEN "oct" ELSE form, sign |-> sign, up |-> up, caps |-> caps,
               digits |-> IF form = "hex" THEN Pad(IF ds = <<>> THEN z + 1 ELSE z) \o ds ELSE Pad(z) \o ds]))))))
WriteUInt(mag) == WriteInt(mag, "")
NumBits(n) == IntBits(n, 30)
WriteNat(n) == WriteUInt(NumBits(n))

IsNeg(f, v) == f.k = "int" /\ v[f.tw] = 1
WriteConst(f, v) ==
    IF IsNeg(f, v) THEN WriteInt(Neg(v), "-")
    ELSE With(IF Chance(12) THEN "+" ELSE "", LAMBDA s : WriteInt(v, s))

-----------------------------------------------------------------------------
(* Floating point literals.  The drawn values are dyadic fractions with few
   bits, whose decimal expansion is finite. *)

RECURSIVE FracDigits(_)
FracDigits(fb) == IF IsZero(fb) THEN <<>>
                  ELSE With(MulAdd(fb, 10, 0), LAMBDA m : <<m.c>> \o FracDigits(m.b))

ExpBits(tw) == IF tw = 32 THEN 8 ELSE 11
Bias(tw) == IF tw = 32 THEN 127 ELSE 1023
(* N (bits, top bit 1) times 2^(e - (Len(N) - 1)), as IEEE bits *)
Ieee(tw, neg, nn, e) ==
    LET fr == FracBits(tw)  eb == IntBits(e + Bias(tw), ExpBits(tw))  t == Len(nn) - 1
    IN TLCEval([i \in 1..tw |-> IF i <= fr THEN (IF i > fr - t THEN nn[i - (fr - t)] ELSE 0)
                                ELSE IF i < tw THEN eb[i - fr] ELSE BoolBit(neg)])
IntPart(nn, s) == IF s <= 0 THEN Zeros(-s) \o nn ELSE [i \in 1..Max2(0, Len(nn) - s) |-> nn[i + s]]
FracPart(nn, s) == [i \in 1..Max2(0, s) |-> IF i <= Len(nn) THEN nn[i] ELSE 0]

Point(ds, p) == IF p < 0 THEN [ip |-> <<>>, fp |-> Pad(-p) \o ds]
                ELSE IF p > Len(ds) THEN [ip |-> ds \o Pad(p - Len(ds)), fp |-> <<>>]
                ELSE [ip |-> SubSeq(ds, 1, p), fp |-> SubSeq(ds, p + 1, Len(ds))]
ExpLit(k) == With(IntBits(IF k < 0 THEN -k ELSE k, 8), LAMBDA b : With(Pad(IF Chance(30) THEN 1 ELSE 0), LAMBDA z :
             With(IF k < 0 THEN "-" ELSE IF Chance(40) THEN "+" ELSE "", LAMBDA s :
               [sign |-> s, digits |-> IF k = 0 THEN <<0>> ELSE z \o DigitsOf(b, 10)])))
(* digits with the decimal point after the first p of them, and a sign *)
WriteFloat(ds, p, sign) ==
    With(IF Chance(50) THEN 99 ELSE RandomElement(-4..4), LAMBDA k :
    With(IF k = 99 THEN Point(ds, p) ELSE Point(ds, p - k), LAMBDA q : With(Chance(50), LAMBDA up : With(Chance(25), LAMBDA z :
    With(IF k = 99 THEN <<>> ELSE <<ExpLit(k)>>, LAMBDA ex :
      \* a number without a point and without an exponent would be an integer
      With(q.fp # <<>> \/ k = 99 \/ Chance(50), LAMBDA dot :
        [sign |-> sign, ip |-> IF z \/ (q.ip = <<>> /\ (q.fp = <<>> \/ ~dot)) THEN <<0>> \o q.ip ELSE q.ip,
         dot |-> dot, fp |-> IF dot /\ Chance(20) THEN Append(q.fp, 0) ELSE q.fp, exp |-> ex, up |-> up]))))))

(* few: bits of the mantissa; lo, hi: exponents *)
DrawFloat(tw) ==
    With(RandomElement(0..(IF tw = 32 THEN 12 ELSE 28)), LAMBDA t : With(RandomElement(IF tw = 32 THEN -8..16 ELSE -12..40), LAMBDA e :
    With(TLCEval(RndBits(t) \o <<1>>), LAMBDA nn : With(Chance(30), LAMBDA neg : With(Chance(8), LAMBDA zero :
      IF zero THEN [cv |-> TLCEval([i \in 1..tw |-> BoolBit(neg /\ i = tw)]), lit |-> WriteFloat(<<0>>, 1, IF neg THEN "-" ELSE "")]
      ELSE With(DigitsOf(IntPart(nn, t - e), 10), LAMBDA id : With(FracDigits(FracPart(nn, t - e)), LAMBDA fd :
             With(IF neg THEN "-" ELSE IF Chance(15) THEN "+" ELSE "", LAMBDA s :
             [cv |-> Ieee(tw, neg, nn, e), lit |-> WriteFloat(id \o fd, Len(id), s)]))))))))

(* A literal with more digits than the type holds: the digits of a value with
   a full mantissa, cut after 21 of them, denote that value after rounding. *)
DrawLong(tw) ==
    With(RandomElement(-3..3), LAMBDA e : With(TLCEval(RndBits(FracBits(tw)) \o <<1>>), LAMBDA nn :
    With(FracBits(tw) - e, LAMBDA s :
    With(DigitsOf(IntPart(nn, s), 10), LAMBDA id : With(FracDigits(FracPart(nn, s)), LAMBDA fd :
    With(SubSeq(fd, 1, Min2(Len(fd), 21)), LAMBDA cut :
      [cv |-> Ieee(tw, FALSE, nn, e), lit |-> WriteFloat(id \o cut, Len(id), "")]))))))
DrawFloatConst(tw) == IF Chance(25) THEN DrawLong(tw) ELSE DrawFloat(tw)

(* Reading one back: the digits as a number, times a power of ten, against the
   IEEE bits as a number times a power of two (exact literals only) *)
RECURSIVE Times(_, _, _)
Times(b, m, k) == IF k <= 0 THEN b ELSE Times(MulAdd(b, m, 0).b, m, k - 1)
ExpValue(l) == IF l.exp = <<>> THEN 0
               ELSE LET x == l.exp[1]  n == Len(x.digits)
                        v == IF n = 1 THEN x.digits[1] ELSE 10 * x.digits[n-1] + x.digits[n]
                    IN IF x.sign = "-" THEN -v ELSE v
FloatMeans(l, tw, cv) ==
    LET ds == l.ip \o l.fp
        k  == ExpValue(l) - Len(l.fp)
        w  == 320
        n  == ReadDigits(ds, 10, 1, Zeros(w))
        fr == FracBits(tw)
        ef == SubSeq(cv, fr + 1, tw - 1)
        e2 == (LET RECURSIVE Val(_) Val(i) == IF i > Len(ef) THEN 0 ELSE ef[i] + 2 * Val(i + 1) IN Val(1)) - Bias(tw) - fr
        m  == Resize(SubSeq(cv, 1, fr) \o <<1>>, w)
    IN /\ (cv[tw] = 1) <=> (l.sign = "-")
       /\ IF IsZero(SubSeq(cv, 1, tw - 1)) THEN IsZero(n)
          ELSE Times(Times(n, 10, k), 2, -e2) = Times(Times(m, 10, -k), 2, e2)

-----------------------------------------------------------------------------
(* Enums.  A definition is [d |-> "auto"], [d |-> "lit", lit |-> Int] or
   [d |-> "ref", e |-> enum, m |-> member], of an earlier enum. *)

RECURSIVE NumbersFrom(_, _, _, _, _)
(* es: the earlier enums *)
NumbersFrom(es, w, defs, i, acc) ==
    IF i > Len(defs) THEN acc
    ELSE With(CASE defs[i].d = "auto" -> IF i = 1 THEN Zeros(w) ELSE MulAdd(acc[i-1], 1, 1).b
                [] defs[i].d = "lit"  -> Meaning(defs[i].lit, w)
                [] defs[i].d = "ref"  -> Resize(es[defs[i].e].vals[defs[i].m], w), LAMBDA v :
           NumbersFrom(es, w, defs, i + 1, Append(acc, v)))
EnumNumbers(es, w, defs) == NumbersFrom(es, w, defs, 1, <<>>)

MaxMember(w) == [i \in 1..w |-> IF w = 64 /\ i = 64 THEN 0 ELSE 1]
Refs(es, w) == {<<e, m>> \in (DOMAIN es) \X (1..8) : m <= Len(es[e].vals) /\ FitsIn(es[e].vals[m], w)}
DrawMember(w) == With(DrawVal(w), LAMBDA v : IF w = 64 THEN TLCEval([v EXCEPT ![64] = 0]) ELSE v)

RECURSIVE DrawDefs(_, _, _, _)
DrawDefs(es, w, n, defs) ==
    IF n = 0 THEN defs
    ELSE With(RandomElement(1..100), LAMBDA r :
         With(Refs(es, w), LAMBDA refs :
         With(IF defs = <<>> THEN FALSE ELSE EnumNumbers(es, w, defs)[Len(defs)] = MaxMember(w), LAMBDA full :
         With(CASE r <= 40 /\ ~full -> [d |-> "auto"]
                [] r > 82 /\ refs # {} -> With(RandomElement(refs), LAMBDA x : [d |-> "ref", e |-> x[1], m |-> x[2]])
                [] OTHER -> [d |-> "lit", lit |-> With(DrawMember(w), WriteUInt)], LAMBDA df :
           DrawDefs(es, w, n - 1, Append(defs, df))))))

-----------------------------------------------------------------------------
(* Sizes: [by |-> <<>> or <<Int>>, bi |-> <<>> or <<Int>>] *)

NoSize == [by |-> <<>>, bi |-> <<>>]
WriteSize(w) ==
    With(RandomElement(1..3), LAMBDA c : With(RandomElement(0..(w \div 8)), LAMBDA b :
      CASE c = 1 /\ w % 8 = 0 -> [by |-> <<WriteNat(w \div 8)>>, bi |-> <<>>]
        [] c = 2 -> [by |-> <<WriteNat(b)>>, bi |-> <<WriteNat(w - 8 * b)>>]
        [] OTHER -> [by |-> <<>>, bi |-> <<WriteNat(w)>>]))
RECURSIVE ReadNat(_, _, _, _)
ReadNat(ds, base, i, acc) == IF i > Len(ds) THEN acc ELSE ReadNat(ds, base, i + 1, acc * base + ds[i])
NatOf(l) == ReadNat(l.digits, BaseOf(l.form), 1, 0)
SizeMeans(sz) == (IF sz.by = <<>> THEN 0 ELSE 8 * NatOf(sz.by[1])) + (IF sz.bi = <<>> THEN 0 ELSE NatOf(sz.bi[1]))

DrawLitEnum(es, maxw) ==
    With(IF Chance(25) THEN Pick(<<32, 33, 53, 54, 63, 64>>) ELSE RandomElement(1..24), LAMBDA w0 :
    With(Min2(w0, maxw), LAMBDA w : With(RandomElement(1..6), LAMBDA n :
    With(DrawDefs(es, w, n, <<>>), LAMBDA defs :
      TLCEval([w |-> w, vals |-> EnumNumbers(es, w, defs), defs |-> defs, sz |-> WriteSize(w)])))))
RECURSIVE DrawLitEnums(_, _, _)
DrawLitEnums(es, n, maxw) ==
    IF n = 0 THEN es ELSE With(DrawLitEnum(es, maxw), LAMBDA e : DrawLitEnums(Append(es, e), n - 1, maxw))

-----------------------------------------------------------------------------
(* A drawn schema with every literal written out: fields gain
     lit (a constant's literal), ref2 (or the member it names), sz and ll.   *)

ConstRefs(es, f) == {<<e, m>> \in (DOMAIN es) \X (1..8) :
    m <= Len(es[e].vals) /\ FitsIn(es[e].vals[m], IF f.k = "int" THEN f.w - 1 ELSE Min2(f.w, 63))}

Spelt(f, c) == f @@ c
SpellField(es, f) ==
    With(IF f.kind = "e" \/ f.k \in {"str", "byt", "struct"} THEN NoSize
         ELSE IF f.kind # "v" /\ f.w = f.tw /\ f.k # "enum" /\ Chance(40) THEN NoSize
         ELSE WriteSize(f.w * Max2(f.len, 1)), LAMBDA sz :
    With(IF f.len > 0 THEN <<WriteNat(f.len)>> ELSE <<>>, LAMBDA ll :
    With(IF f.kind = "c" /\ f.k \in {"uint", "int"} THEN ConstRefs(es, f) ELSE {}, LAMBDA refs :
      CASE f.kind = "c" /\ f.k = "float" ->
             With(DrawFloatConst(f.tw), LAMBDA x : [f EXCEPT !.cv = x.cv] @@ [sz |-> sz, ll |-> ll, ref2 |-> <<>>, lit |-> x.lit])
        [] refs # {} /\ Chance(25) ->
             With(RandomElement(refs), LAMBDA x :
               [f EXCEPT !.cv = Resize(es[x[1]].vals[x[2]], f.tw)] @@ [sz |-> sz, ll |-> ll, ref2 |-> x, lit |-> <<>>])
        [] f.kind = "c" /\ f.k \in {"uint", "int"} ->
             With(WriteConst(f, f.cv), LAMBDA l : f @@ [sz |-> sz, ll |-> ll, ref2 |-> <<>>, lit |-> l])
        [] OTHER -> f @@ [sz |-> sz, ll |-> ll, ref2 |-> <<>>, lit |-> <<>>])))

IsStatic(sch, s) == \A l \in Range(StructLeaves(sch, s)) : l.op \notin {"str", "byt"}
RECURSIVE SpellFields(_, _, _)
SpellFields(es, fs, acc) ==
    IF Len(acc) = Len(fs) THEN acc
    ELSE With(SpellField(es, fs[Len(acc) + 1]), LAMBDA f : SpellFields(es, fs, Append(acc, f)))
RECURSIVE SpellStructs(_, _, _)
SpellStructs(sch, i, acc) ==
    IF i > Len(sch.structs) THEN acc
    ELSE With(SpellFields(sch.enums, sch.structs[i].fields, <<>>), LAMBDA fs :
         With(IF IsStatic(sch, i) /\ Chance(50) THEN With(LeafBits(StructLeaves(sch, i)), WriteSize) ELSE NoSize, LAMBDA sz :
           SpellStructs(sch, i + 1, Append(acc, [fields |-> fs, inl |-> sch.structs[i].inl, sz |-> sz]))))
Spell(sch) == [sch EXCEPT !.structs = SpellStructs(sch, 1, <<>>)]

DrawLitSchema(p) ==
    With(RandomElement(1..3), LAMBDA ne : With(RandomElement(1..p.structs), LAMBDA ns :
    With(DrawLitEnums(<<>>, ne, p.enumw), LAMBDA es :
    With(DrawStructs([enums |-> es, structs |-> <<>>, root |-> 0], p, ns), LAMBDA s :
      Spell([s EXCEPT !.root = ns])))))

-----------------------------------------------------------------------------
(* Every literal of the schema means what the schema says *)

ExactFloat(l) == Len(l.fp) + Len(l.ip) <= 45 /\ ~(Len(l.fp) >= 17)
FieldSpelt(sch, f) ==
    /\ f.sz # NoSize => SizeMeans(f.sz) = f.w * Max2(f.len, 1)
    /\ f.ll # <<>> => NatOf(f.ll[1]) = f.len
    /\ f.kind = "c" /\ f.k \in {"uint", "int"} =>
         f.cv = (IF f.ref2 # <<>> THEN Resize(sch.enums[f.ref2[1]].vals[f.ref2[2]], f.tw) ELSE Meaning(f.lit, f.tw))
    /\ f.kind = "c" /\ f.k = "float" /\ ExactFloat(f.lit) => FloatMeans(f.lit, f.tw, f.cv)
EnumSpelt(es, i) ==
    /\ es[i].vals = EnumNumbers(es, es[i].w, es[i].defs)
    /\ SizeMeans(es[i].sz) = es[i].w
    /\ \A j \in DOMAIN es[i].defs :
         LET df == es[i].defs[j] IN
         CASE df.d = "auto" -> es[i].vals[j] = IF j = 1 THEN Zeros(es[i].w) ELSE MulAdd(es[i].vals[j-1], 1, 1).b
           [] df.d = "ref" -> df.e < i
           [] df.d = "lit" -> FitsIn(Meaning(df.lit, 70), Min2(es[i].w, 63))
AllSpelt(sch) ==
    /\ \A i \in DOMAIN sch.enums : EnumSpelt(sch.enums, i)
    /\ \A s \in DOMAIN sch.structs :
         /\ sch.structs[s].sz # NoSize => SizeMeans(sch.structs[s].sz) = LeafBits(StructLeaves(sch, s))
         /\ \A i \in DOMAIN sch.structs[s].fields : FieldSpelt(sch, sch.structs[s].fields[i])
=============================================================================
