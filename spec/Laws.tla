-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The laws of Wire's bit layout, for every width and byte order at once   *)
(* (exhaustive, one state per case).                                       *)
(***************************************************************************)
EXTENDS Wire
VARIABLES w, tw, big, signed, v
vars == <<w, tw, big, signed, v>>
Full == 9       \* up to this width, every value
Bit(k, n) == [i \in 1..n |-> IF i = k THEN 1 ELSE 0]
Types == {8, 16, 32, 64}
Init == /\ tw \in Types /\ w \in 1..tw /\ big \in BOOLEAN /\ signed \in BOOLEAN
        /\ v \in {Bit(k, tw) : k \in 0..tw} \cup {[i \in 1..tw |-> 1]}
              \cup (IF w <= Full THEN {IntBits(x, w) \o Zeros(tw - w) : x \in 0..(2^w - 1)} ELSE {})
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* the two bit maps are inverse permutations *)
Permutes == \A j \in 0..(w - 1) : /\ ValueBitOf(w, big, j) \in 0..(w - 1)
                                  /\ WireBitOf(w, big, ValueBitOf(w, big, j)) = j
                                  /\ ValueBitOf(w, big, WireBitOf(w, big, j)) = j
(* reading back gives the value cut to the width *)
ReadsBack == FromWire(ToWire(v, w, big), w, big, tw, signed) = Truncate(v, w, tw, signed)
(* and cutting twice is cutting once *)
Idempotent == Truncate(Truncate(v, w, tw, signed), w, tw, signed) = Truncate(v, w, tw, signed)
(* whole bytes in big endian are the bytes of little endian, reversed *)
Mirror == w % 8 = 0 => \A k \in 0..(w \div 8 - 1) : \A i \in 0..7 :
             ToWire(v, w, TRUE)[8 * k + i + 1] = ToWire(v, w, FALSE)[w - 8 * (k + 1) + i + 1]
(* lengths *)
ASSUME VarintLaw == \A n \in {0, 1, 127, 128, 129, 16383, 16384, 2097151, 2097152, 268435455} :
                LET b == Varint(n) IN /\ ParseVarint(b, 0) = [st |-> "ok", val |-> n, n |-> Len(b)]
                                      /\ \A k \in 0..(Len(b) - 1) : ParseVarint(SubSeq(b, 1, k), 0).st = "short"
=============================================================================
