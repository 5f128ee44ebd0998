-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The wire format of bubbler schemas, at bit level.                       *)
(*                                                                         *)
(* A schema is [enums |-> Seq(Enum), structs |-> Seq(Struct), root |-> i]. *)
(*   Enum   == [w |-> width in bits, vals |-> Seq(value bits, LSB first)]  *)
(*   Struct == [fields |-> Seq(Field), inl |-> BOOLEAN]                    *)
(*   Field  == [kind |-> "v" | "c" | "n" | "e",   void, constant, normal,  *)
(*                                                embedded                 *)
(*              k    |-> "uint" "int" "bool" "float" "enum" "str" "byt"    *)
(*                       "struct",                                         *)
(*              tw   |-> width of the type in bits (0 if not numeric),     *)
(*              ref  |-> index of the enum or struct (else 0),             *)
(*              len  |-> array length, 0 for a scalar,                     *)
(*              w    |-> declared wire width of ONE element,               *)
(*              big  |-> byte order is big-endian,                         *)
(*              cv   |-> constant value bits (tw of them)]                 *)
(*                                                                         *)
(* Flatten turns a struct into its sequence of LEAVES in wire order.  A    *)
(* message is the concatenation of the bits of its leaves; everything else *)
(* (encode, decode, sizes, the decode_size protocol) is defined on leaves. *)
(* Integers are sequences of 0/1, least significant bit first, because TLC *)
(* integers have 32 bits and the fields have up to 64.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

(* Binds the VALUE of v: TLC re-evaluates LET definitions and operator
   arguments at each use inside an action, which is slow, and wrong for drawn
   values. *)
With(v, F(_)) == CHOOSE r \in {F(x) : x \in {v}} : TRUE

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

-----------------------------------------------------------------------------
(* Bits *)

IntBits(v, w)  == [i \in 1..w |-> (v \div (2^(i-1))) % 2]          \* w <= 30
Zeros(n)       == [i \in 1..n |-> 0]
ByteOf(b, k)   == b[8*k+1] + 2*b[8*k+2] + 4*b[8*k+3] + 8*b[8*k+4]
                  + 16*b[8*k+5] + 32*b[8*k+6] + 64*b[8*k+7] + 128*b[8*k+8]
BytesOfBits(b) == [k \in 1..(Len(b) \div 8) |-> ByteOf(b, k-1)]
BitAt(bs, p)   == (bs[(p \div 8) + 1] \div (2^(p % 8))) % 2        \* p from 0
BitsAt(bs, p, n) == [i \in 1..n |-> BitAt(bs, p + i - 1)]

(* The bit of the value that travels as bit j (from 0) of a w-bit field.
   Little-endian fields travel in value order; big-endian ones send the most
   significant byte first, and a last partial chunk holds the low w%8 bits. *)
ValueBitOf(w, big, j) ==
    IF ~big THEN j
    ELSE LET k == j \div 8 IN Max2(j % 8, w - 8*(k+1) + (j % 8))

(* and its inverse *)
WireBitOf(w, big, i) ==
    IF ~big THEN i
    ELSE LET m == w % 8
             f == w \div 8
         IN IF i < m THEN 8*f + i
            ELSE 8*(f - 1 - ((i - m) \div 8)) + ((i - m) % 8)

ToWire(v, w, big) == [j \in 1..w |-> v[1 + ValueBitOf(w, big, j-1)]]

FromWire(s, w, big, tw, signed) ==
    [i \in 1..tw |->
        IF i <= w THEN s[1 + WireBitOf(w, big, i-1)]
        ELSE IF signed THEN s[1 + WireBitOf(w, big, w-1)]
        ELSE 0]

(* The value a field holds after a round trip through w wire bits. *)
Truncate(v, w, tw, signed) ==
    [i \in 1..tw |-> IF i <= w THEN v[i] ELSE IF signed THEN v[w] ELSE 0]

-----------------------------------------------------------------------------
(* Variable-length integers: 7 bits per byte, least significant group first *)

RECURSIVE Varint(_)
Varint(n) == IF n < 128 THEN <<n>> ELSE <<(n % 128) + 128>> \o Varint(n \div 128)

(* Parse at byte position p (from 0).  st: "ok" | "short" | "malformed".
   Lengths of 5 bytes and more are outside the modelled range. *)
RECURSIVE ParseVarintFrom(_, _, _, _)
ParseVarintFrom(bs, p, i, acc) ==
    IF i >= 4 THEN [st |-> "malformed", val |-> acc, n |-> i]
    ELSE IF p + i >= Len(bs) THEN [st |-> "short", val |-> acc, n |-> i]
    ELSE LET b == bs[p + i + 1]
             a == acc + (b % 128) * (2^(7*i))
         IN IF b < 128 THEN [st |-> "ok", val |-> a, n |-> i + 1]
            ELSE ParseVarintFrom(bs, p, i + 1, a)
ParseVarint(bs, p) == ParseVarintFrom(bs, p, 0, 0)

(* Index (from 0) of the first zero byte at or after p, or -1. *)
RECURSIVE FindZero(_, _)
FindZero(bs, p) == IF p >= Len(bs) THEN -1
                   ELSE IF bs[p+1] = 0 THEN p ELSE FindZero(bs, p+1)

-----------------------------------------------------------------------------
(* Leaves *)

PadLeaf(w)  == [op |-> "pad", k |-> "void", w |-> w, tw |-> 0, big |-> FALSE, ref |-> 0, cv |-> <<>>]
NumLeaf(f)  == [op |-> "num", k |-> f.k, w |-> f.w, tw |-> f.tw, big |-> f.big, ref |-> f.ref, cv |-> <<>>]
ConstLeaf(f)== [op |-> "const", k |-> f.k, w |-> f.w, tw |-> f.tw, big |-> f.big, ref |-> f.ref, cv |-> f.cv]
DynLeaf(f)  == [op |-> f.k, k |-> f.k, w |-> 0, tw |-> 0, big |-> FALSE, ref |-> 0, cv |-> <<>>]

RECURSIVE StructLeaves(_, _)
FieldLeaves(sch, f) ==
    LET one == CASE f.kind = "v" -> <<PadLeaf(f.w)>>
                 [] f.kind = "c" -> <<ConstLeaf(f)>>
                 [] f.kind = "e" -> StructLeaves(sch, f.ref)
                 [] f.kind = "n" /\ f.k = "struct" -> StructLeaves(sch, f.ref)
                 [] f.kind = "n" /\ f.k \in {"str", "byt"} -> <<DynLeaf(f)>>
                 [] OTHER -> <<NumLeaf(f)>>
    IN IF f.len = 0 THEN one ELSE FlattenSeq([i \in 1..f.len |-> one])
StructLeaves(sch, si) ==
    LET fs == sch.structs[si].fields
    IN FlattenSeq([i \in 1..Len(fs) |-> FieldLeaves(sch, fs[i])])

Flatten(sch) == TLCEval(StructLeaves(sch, sch.root))

IsValue(lf) == lf.op \in {"num", "str", "byt"}
ValueLeaves(leaves) == SelectSeq(leaves, IsValue)

(* Sizes *)
FixedBits(lf) == IF lf.op \in {"str", "byt"} THEN 0 ELSE lf.w
RECURSIVE SumFixed(_, _)
SumFixed(leaves, i) == IF i = 0 THEN 0 ELSE FixedBits(leaves[i]) + SumFixed(leaves, i-1)
IsDynamic(leaves) == \E i \in DOMAIN leaves : leaves[i].op \in {"str", "byt"}

(* What a struct reports as its own fixed size: its fields, and those it
   embeds, that are not themselves of variable size *)
RECURSIVE FixedPart(_, _)
FixedPart(sch, si) ==
    LET fs == sch.structs[si].fields
        part(f) == IF f.kind = "e" THEN FixedPart(sch, f.ref)
                   ELSE With(FieldLeaves(sch, f), LAMBDA ls : IF IsDynamic(ls) THEN 0 ELSE SumFixed(ls, Len(ls)))
        RECURSIVE sum(_)
        sum(i) == IF i = 0 THEN 0 ELSE part(fs[i]) + sum(i - 1)
    IN sum(Len(fs))

-----------------------------------------------------------------------------
(* Encode: the wire bits of `vals`, one value per value leaf.  A void bit is
   given as 2, "not determined": zero in a fresh buffer, and whatever an
   encoder chooses to leave there in a used one. *)

LeafWire(lf, v) ==
    CASE lf.op = "pad"   -> [i \in 1..lf.w |-> 2]
      [] lf.op = "const" -> ToWire(lf.cv, lf.w, lf.big)
      [] lf.op = "num"   -> ToWire(v, lf.w, lf.big)
      [] lf.op = "str"   -> BitsAt(v \o <<0>>, 0, 8 * (Len(v) + 1))
      [] lf.op = "byt"   -> LET b == Varint(Len(v)) \o v IN BitsAt(b, 0, 8 * Len(b))

RECURSIVE PairUp(_, _, _, _)
(* value index for each leaf: number of value leaves up to it *)
PairUp(leaves, i, n, acc) ==
    IF i > Len(leaves) THEN acc
    ELSE LET m == IF IsValue(leaves[i]) THEN n + 1 ELSE n
         IN PairUp(leaves, i+1, m, Append(acc, m))
ValueIndex(leaves) == PairUp(leaves, 1, 0, <<>>)

WireOf(leaves, vals) ==
    With(ValueIndex(leaves), LAMBDA ix :
      TLCEval(FlattenSeq([i \in 1..Len(leaves) |->
                 TLCEval(LeafWire(leaves[i], IF IsValue(leaves[i]) THEN vals[ix[i]] ELSE <<>>))])))

Fill(bits, x) == [i \in 1..Len(bits) |-> IF bits[i] = 2 THEN x ELSE bits[i]]

EncodeFresh(leaves, vals) == TLCEval(BytesOfBits(Fill(WireOf(leaves, vals), 0)))

(* Which bits of the encoding are determined by the object (1) or void (0). *)
WireMask(bits) == TLCEval(BytesOfBits([i \in 1..Len(bits) |-> IF bits[i] = 2 THEN 0 ELSE 1]))

RECURSIVE DynSize(_, _, _)
DynSize(leaves, vals, i) ==
    IF i > Len(leaves) THEN 0
    ELSE IF ~IsValue(leaves[i]) THEN DynSize(leaves, vals, i + 1)
    ELSE (CASE leaves[i].op = "str" -> Len(vals[1]) + 1
            [] leaves[i].op = "byt" -> Len(Varint(Len(vals[1]))) + Len(vals[1])
            [] OTHER -> 0)
         + DynSize(leaves, Tail(vals), i + 1)
EncodeSize(leaves, vals) == (SumFixed(leaves, Len(leaves)) \div 8) + DynSize(leaves, vals, 1)

TruncVals(leaves, vals) ==
    With(ValueLeaves(leaves), LAMBDA vl :
       TLCEval([i \in 1..Len(vl) |->
          IF vl[i].op = "num" THEN TLCEval(Truncate(vals[i], vl[i].w, vl[i].tw, vl[i].k = "int"))
          ELSE vals[i]]))

-----------------------------------------------------------------------------
(* Decode: st = "ok" | "short" | "const" | "malformed"; n = bytes consumed *)

DecodeStep(bs, a, lf) ==
    IF a.st # "ok" THEN a
    ELSE CASE lf.op \in {"pad", "num", "const"} ->
              IF a.pos + lf.w > 8 * Len(bs) THEN [a EXCEPT !.st = "short"]
              ELSE IF lf.op = "pad" THEN [a EXCEPT !.pos = @ + lf.w]
              ELSE With(TLCEval(BitsAt(bs, a.pos, lf.w)), LAMBDA s :
                   IF lf.op = "const"
                   THEN IF s = ToWire(lf.cv, lf.w, lf.big)
                        THEN [a EXCEPT !.pos = @ + lf.w]
                        ELSE [a EXCEPT !.st = "const"]
                   ELSE [a EXCEPT !.pos = @ + lf.w,
                                  !.vals = Append(@, TLCEval(FromWire(s, lf.w, lf.big, lf.tw, lf.k = "int")))])
           [] lf.op = "str" ->
              With(a.pos \div 8, LAMBDA p : With(FindZero(bs, p), LAMBDA z :
                 IF z < 0 THEN [a EXCEPT !.st = "short"]
                 ELSE [a EXCEPT !.pos = 8 * (z + 1), !.vals = Append(@, SubSeq(bs, p + 1, z))]))
           [] lf.op = "byt" ->
              With(a.pos \div 8, LAMBDA p : With(ParseVarint(bs, p), LAMBDA v :
                 IF v.st # "ok" THEN [a EXCEPT !.st = v.st]
                 ELSE IF p + v.n + v.val > Len(bs) THEN [a EXCEPT !.st = "short"]
                 ELSE [a EXCEPT !.pos = 8 * (p + v.n + v.val),
                                !.vals = Append(@, SubSeq(bs, p + v.n + 1, p + v.n + v.val))]))

RECURSIVE DecodeFrom(_, _, _, _)
DecodeFrom(bs, leaves, i, a) ==
    IF i > Len(leaves) \/ a.st # "ok" THEN a
    ELSE With(DecodeStep(bs, a, leaves[i]), LAMBDA b : DecodeFrom(bs, leaves, i + 1, b))

Decode(leaves, bs) ==
    With(DecodeFrom(bs, leaves, 1, [pos |-> 0, vals |-> <<>>, st |-> "ok"]), LAMBDA r :
       [st |-> r.st, n |-> IF r.st = "ok" THEN r.pos \div 8 ELSE -1, vals |-> r.vals])

-----------------------------------------------------------------------------
(* decode_size: what the received bytes say about the frame length.
   FrameInfo gives st = "complete" (the frame is `min` bytes long), "partial"
   (no extension of bs is a frame shorter than `min`), or "malformed".
   The protocol allows, for a partial frame, any answer r with
   Len(bs) < r <= min: progress is made and nothing is over-requested. *)

(* Frames above this many bytes are outside the modelled range: positions are
   counted in bits, and TLC's integers have 32 bits. *)
MaxFrame == 2^27

SizeStep(bs, a, lf) ==
    CASE lf.op \in {"pad", "num", "const"} -> [a EXCEPT !.pos = @ + lf.w]
      [] lf.op = "str" ->
           With(FindZero(bs, a.pos \div 8), LAMBDA z :
              IF z >= 0 THEN [a EXCEPT !.pos = 8 * (z + 1)]
              ELSE [a EXCEPT !.pos = 8 * (Max2(@ \div 8, Len(bs)) + 1)])
      [] lf.op = "byt" ->
           With(ParseVarint(bs, a.pos \div 8), LAMBDA v :
              CASE (a.pos \div 8) + v.n + 1 + v.val > MaxFrame -> [a EXCEPT !.bad = TRUE]
                [] v.st = "ok"    -> [a EXCEPT !.pos = 8 * ((@ \div 8) + v.n + v.val)]
                [] v.st = "short" -> [a EXCEPT !.pos = 8 * ((@ \div 8) + v.n + 1 + v.val)]
                [] OTHER          -> [a EXCEPT !.bad = TRUE])

RECURSIVE SizeFrom(_, _, _, _)
SizeFrom(bs, leaves, i, a) ==
    IF i > Len(leaves) \/ a.bad THEN a
    ELSE With(SizeStep(bs, a, leaves[i]), LAMBDA b : SizeFrom(bs, leaves, i + 1, b))

FrameInfo(leaves, bs) ==
    With(SizeFrom(bs, leaves, 1, [pos |-> 0, bad |-> FALSE]), LAMBDA r :
       [st |-> IF r.bad THEN "malformed" ELSE IF r.pos \div 8 <= Len(bs) THEN "complete" ELSE "partial",
        min |-> r.pos \div 8])

(* The answers the protocol allows, as an interval *)
SizeAnswers(leaves, bs) ==
    With(FrameInfo(leaves, bs), LAMBDA f :
       CASE f.st = "complete"  -> [lo |-> f.min, hi |-> f.min]
         [] f.st = "partial"   -> [lo |-> -f.min, hi |-> -(Len(bs) + 1)]
         [] f.st = "malformed" -> [lo |-> -2000000000, hi |-> Len(bs)])
=============================================================================
