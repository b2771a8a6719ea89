------------------------------- MODULE LaneGen -------------------------------
(***************************************************************************)
(* Operands for the operations of Lanes, for one property (PLAN), and the  *)
(* laws which the operations of the specification themselves obey.         *)
(*                                                                         *)
(* A state is a choice of element type, vector size in bytes and a scheme  *)
(* of filling lanes: schemes walk through the interesting values of the    *)
(* type so that pairs of them meet in one lane, or in adjacent lanes.      *)
(* Each state is printed as "A|class|type|lanes|n|operands".  The property *)
(* decides the classes; the operations which take operands of a class are  *)
(* all tried on them (printed once as "O|class|operation").                *)
(*                                                                         *)
(* Environment: PLAN, TIER, SEED; BYTES and SZ select one vector size and *)
(* one element size (to run the slices in parallel).                       *)
(***************************************************************************)
EXTENDS Lanes, TLC, IOUtils, SequencesExt

Plan == IOEnv.PLAN
Thorough == IOEnv.TIER = "thorough"
Seed == atoi(IOEnv.SEED) % 1000

Str(x) == ToString(x)
Range1(n) == 1..n

(***************************************************************************)
(* Interesting values                                                      *)
(***************************************************************************)
Fill(sz, k, lo, mid, hi) == [i \in 1..sz |-> IF i < k THEN lo ELSE IF i = k THEN mid ELSE hi]
IntVals(sz) ==
    {Fill(sz, k, f[1], f[2], f[3]) : k \in 1..sz,
        f \in {<<0, 1, 0>>, <<255, 255, 0>>, <<255, 127, 0>>, <<0, 128, 0>>, <<0, 128, 255>>, <<255, 127, 255>>, <<0, 255, 255>>}}
    \cup {Rep(b, sz) : b \in {0, 255, 85, 170}}
    \cup {[i \in 1..sz |-> 16 * i + 3], [i \in 1..sz |-> 250 - 17 * i], Fill(sz, 1, 0, 254, 255), Fill(sz, 1, 0, 254, 0), Fill(sz, 1, 0, 2, 0)}
    \cup (IF sz = 1 THEN {<<b>> : b \in {3, 7, 64, 100, 126, 129, 156, 192, 200}} ELSE {})
\* a float from sign, unbiased exponent and the first 23 bits of the mantissa
Flt(t, s, e, m) ==
    LET f(q) == LET p == IF t = "f32" THEN q ELSE q - 29 IN IF p < 0 THEN 0 ELSE (m \div 2^p) % 2
    IN Make(t, s, e + Bias(t), f)
\* the same with the last bit of the mantissa set as well
Odd(x) == [x EXCEPT ![1] = IF @ % 2 = 0 THEN @ + 1 ELSE @]
H == 4194304
Zeros(t) == {Rep(0, Size(t)), Append(Rep(0, Size(t) - 1), 128)}
Specials(t) == Zeros(t) \cup {Inf(t, TRUE), Inf(t, FALSE), MaxFloat(t, TRUE), MaxFloat(t, FALSE), Flt(t, FALSE, ExpMax(t) - Bias(t), H),
                Flt(t, TRUE, 1 - Bias(t), 0), Flt(t, FALSE, 0 - Bias(t), 1), Flt(t, TRUE, 0 - Bias(t), 8388607)}
\* around every binary point: whole, a half, just above and below
RoundVals(t) ==
    LET es == (IF Thorough THEN -2..24 ELSE {-2, -1, 0, 1, 2, 5, 12, 21, 22, 23, 24}) \cup (IF t = "f64" THEN {30, 31, 32, 50, 51, 52, 53, 61, 62, 63, 64} ELSE {30, 31, 32, 62, 63, 64})
        ms(e) == {0, 1, H, H - 1, H + 1, 8388607, 8388606, H + H \div 2}
                 \cup (IF e >= 0 /\ e <= 22 THEN {2^(22 - e), 8388608 - 2^(22 - e), (5592405 \div 2^(23 - e)) * 2^(23 - e) + 2^(22 - e)} ELSE {})
                 \cup (IF e >= 1 /\ e <= 22 THEN {2^(23 - e)} ELSE {})
    IN Specials(t)
       \cup {Flt(t, s, e, m) : s \in BOOLEAN, e \in {-40, 60, 100}, m \in {0, 5592405}}
       \cup UNION {{Flt(t, s, e, m) : s \in BOOLEAN, m \in ms(e)} : e \in es}
       \cup (IF t = "f64" THEN UNION {{Odd(Flt(t, s, e, m)) : s \in BOOLEAN, m \in {0, H, 8388607}} : e \in es} ELSE {})
ShortVals(t) == Zeros(t) \cup {Flt(t, s, e, m) : s \in BOOLEAN, e \in {-4, 0, 1, 3, 7}, m \in {0, H}}
                \cup {Flt(t, s, 5, 8388608 - 2^(23 - 5)) : s \in BOOLEAN} \cup {Flt(t, FALSE, 9, 2^15)}
CmpVals(t) == Specials(t) \cup {Flt(t, s, e, m) : s \in BOOLEAN, e \in {-100, -1, 0, 1, 60}, m \in {0, 1, H}}
              \cup (IF t = "f64" THEN {Odd(Flt(t, s, e, 0)) : s \in BOOLEAN, e \in {0, 1}} ELSE {})
CastVals(t) == CmpVals(t) \cup {Flt(t, s, e, 8388607) : s \in BOOLEAN, e \in {-126, 0, 127}}
               \cup (IF t = "f64" THEN {Flt(t, s, e, m) : s \in BOOLEAN, e \in {128, 200, -200}, m \in {0, H}} ELSE {Flt(t, s, -127, m) : s \in BOOLEAN, m \in {1, 2, 4096, 8388607}})
WideVals(t) == Zeros(t) \cup {Inf(t, TRUE), Inf(t, FALSE)}
               \cup {Flt(t, s, e, m) : s \in BOOLEAN, e \in IF Thorough THEN {-90, -20, -7, -3, -2, -1, 0, 1, 2, 3, 10, 50, 99} ELSE {-90, -3, -2, -1, 0, 1, 2, 3, 50},
                     m \in {(i * 8388607) \div (IF Thorough THEN 96 ELSE 24) : i \in 0..(IF Thorough THEN 96 ELSE 24)}}
\* squares and their neighbours, odd and even exponents, the ends of the range
RootVals(t) ==
    LET es == {-126, -100, -3, -2, -1, 0, 1, 2, 3, 24, 51, 126, 127} \cup (IF t = "f64" THEN {-1022, -500, 511, 1000, 1022, 1023} ELSE {})
        ms == {0, 1, 2, H - 1, H, H + 1, 8388606, 8388607, 1048576, 4718592, 6553600} \cup (IF Thorough THEN {(i * 8388593) \div 101 : i \in 1..100} ELSE {(i * 8388593) \div 17 : i \in 1..16})
    IN Specials(t) \cup {Flt(t, FALSE, e, m) : e \in es, m \in ms} \cup {Flt(t, TRUE, e, m) : e \in {0, 2, 100}, m \in {0, H}}
       \cup {Flt(t, FALSE, 0 - Bias(t), m) : m \in {1, 2, 3, 64, H, 8388607}}
       \cup (IF t = "f64" THEN {Odd(Flt(t, FALSE, e, m)) : e \in es, m \in ms} ELSE {})
ValueSet(t) ==
    IF t \notin Floats THEN IntVals(Size(t))
    ELSE CASE Plan \in {"C15", "C19"} -> ShortVals(t) [] Plan = "C16" -> CastVals(t) [] Plan = "C21" -> RoundVals(t)
           [] Plan = "C24" -> WideVals(t) [] Plan = "C25" -> RootVals(t) [] OTHER -> CmpVals(t)
\* evaluated once per type
Values == [t \in Types |-> SetToSeq(ValueSet(t))]

(***************************************************************************)
(* Pseudo-random bytes (a linear congruence modulo 65537, twice per byte)  *)
(***************************************************************************)
Lcg(x) == ((x * 75 + 74) % 65537)
RECURSIVE RndFrom(_, _, _)
RndFrom(x, n, acc) == IF n = 0 THEN acc ELSE LET y == Lcg(Lcg(x)) IN RndFrom(y, n - 1, Append(acc, (y \div 7) % 256))
Rnd(k, n) == RndFrom((k * 7919 + Seed * 104 + 17) % 65537, n, <<>>)

(***************************************************************************)
(* Schemes                                                                 *)
(***************************************************************************)
Cat(f(_), sz, w) == [b \in 1..w |-> f((b - 1) \div sz)[((b - 1) % sz) + 1]]   \* lane i (from 0) is f(i)
V(t, i) == Values[t][(i % Len(Values[t])) + 1]
\* every value in some lane
Single(t, w, r) == LET f(i) == V(t, r + i) IN Cat(f, Size(t), w)
\* value i of one operand meets value i + d of the other
PairA(t, w, r) == Single(t, w, r)
PairB(t, w, r, d) == Single(t, w, r + d)
\* adjacent lanes of one operand meet
Adj(t, w, r, d) == LET f(i) == V(t, r + i \div 2 + IF i % 2 = 1 THEN d ELSE 0) IN Cat(f, Size(t), w)
\* all bytes distinct
Count8(w, k) == [b \in 1..w |-> (b + w * k) % 256]

\* every byte
Bytes(w, r) == [b \in 1..w |-> (r - 1000 + b - 1) % 256]

Widths(t) == {16, 32, 64}
Class ==
    CASE Plan = "C12" -> {"M3", "M3u", "X2", "X2u"} [] Plan = "C13" -> {"S2N", "V2N"} [] Plan = "C14" -> {"V1", "V2"} [] Plan = "C15" -> {"H2"} [] Plan = "C16" -> {"V1", "V2"}
      [] Plan = "C17" -> {"E2"} [] Plan = "C18" -> {"V1"} [] Plan = "C19" -> {"R1", "P1", "L1"} [] Plan = "C20" -> {"V4"}
      [] Plan = "C21" -> {"V1"} [] Plan \in {"C24", "C25"} -> {"V1"}
\* element types the property speaks about
PlanTypes ==
    CASE Plan = "C14" -> Types \ {"u64"} [] Plan = "C20" -> {"u8", "i8", "u16", "i16", "u32", "i32"} [] Plan \in {"C21", "C25"} -> Floats [] Plan = "C24" -> {"f32"}
      [] OTHER -> Types
PlanWidths == IF Plan \in {"C17", "C20", "C21", "C24", "C25"} THEN {16, 32} ELSE {16, 32, 64}

\* offsets at which a walk through N values starts: so that every value occurs, or every value in every lane
Starts(n, lanes) == IF Thorough THEN 0..(n - 1) ELSE {i \in 0..(n - 1) : i % lanes = 0}
Dists(n) == 0..(n - 1)
Few == IF Thorough THEN 0..60 ELSE 0..23

\* the operations of a property by class ("upcast" stands for upcasts to every type)
OpsOf(c) ==
    CASE c = "S2N" -> {"halfs", "interleave", "partition", "partition_mask", "ones", "zeroes", "splat", "default"}
      [] c = "V2N" -> {"merge_halves", "merge_interleaved", "merge_partitioned"}
      [] c = "M3" -> {"load", "store"} [] c = "M3u" -> {"uload", "ustore"} [] c = "X2" -> {"extract", "replace"} [] c = "X2u" -> {"uextract", "ureplace"}
      [] c = "V1" -> (CASE Plan = "C14" -> {"abs"} [] Plan = "C16" -> {"upcast", "updown"} [] Plan = "C21" -> {"floor", "ceil", "trunc", "round"}
                        [] Plan = "C18" -> Casts \cup {"count_ones", "count_zeroes", "swap_bytes", "to_be", "to_le", "from_be", "from_le"}
                        [] Plan = "C24" -> {"recip", "rsqrt"} [] Plan = "C25" -> {"sqrt"})
      [] c = "V2" -> (CASE Plan = "C14" -> {"min", "max", "saturating_add", "saturating_sub"} [] Plan = "C16" -> {"saturating_downcast"})
      [] c = "H2" -> Horizontal [] c = "E2" -> {"eq_mask", "ne_mask"} [] c = "R1" -> {"sum", "sum_upcast", "scalar_reduce"}
      [] c = "P1" -> {"product"} [] c = "L1" -> {"coalesce", "sum_upcast"} [] c = "V4" -> {"destride_two", "destride_four"}
ASSUME \A c \in Class : \A op \in OpsOf(c) : PrintT("O|" \o c \o "|" \o op)

VARIABLE call   \* [c |-> class, t |-> type, w |-> bytes, n |-> number, r, d |-> scheme]
Cases(c, t, w) ==
    LET n == Len(Values[t])
        lanes == w \div Size(t)
        Mk(S, R, D) == {[c |-> c, t |-> t, w |-> w, n |-> k, r |-> r, d |-> d] : k \in S, r \in R, d \in D}
    IN CASE c = "S2N" -> Mk(0..lanes, IF Thorough THEN 0..9 ELSE 0..1, {1})
         [] c = "V2N" -> Mk(0..lanes, IF Thorough THEN -40..-1 ELSE -4..-1, {0}) \cup Mk(0..lanes, 0..1, {1})
         [] c = "M3" -> Mk((0..(lanes + 2)) \cup {2 * lanes - 1, 2 * lanes, 2 * lanes + 1, -1, -2, 1 - lanes, -lanes, -1 - lanes, -2 * lanes}, 0..(IF Thorough THEN 9 ELSE 1), {0})
         [] c = "M3u" -> Mk(0..lanes, 0..(IF Thorough THEN 9 ELSE 1), {0})
         [] c = "X2" -> Mk((0..(lanes + 1)) \cup {2 * lanes, -1, -lanes}, 0..(IF Thorough THEN 9 ELSE 1), {0})
         [] c = "X2u" -> Mk(0..(lanes - 1), 0..(IF Thorough THEN 9 ELSE 1), {0})
         [] c = "V1" -> Mk({0}, 0..(n - 1), {0}) \cup Mk({0}, {-1 - i : i \in Few}, {0})
                        \cup (IF Size(t) = 1 THEN Mk({0}, {1000 + i : i \in IF Thorough THEN 0..255 ELSE {16 * i : i \in 0..15} \cup {17 * i + 3 : i \in 0..14}}, {0}) ELSE {})
         [] c = "V2" -> Mk({0}, Starts(n, lanes), Dists(n)) \cup Mk({0}, {-1 - i : i \in Few}, {0})
                        \cup (IF Size(t) = 1 THEN Mk({0}, {1000 + i : i \in {i \in 0..255 : i % lanes = 0}}, {d \in 0..255 : Thorough \/ d % 4 = Seed % 4}) ELSE {})
         [] c = "H2" -> Mk({0}, IF Thorough THEN 0..(n - 1) ELSE {i \in 0..(n - 1) : i % lanes = 0}, {d \in Dists(n) : Thorough \/ n <= 40 \/ d % 2 = Seed % 2})
                        \cup Mk({0}, {-1 - i : i \in Few}, {0})
         [] c = "E2" -> Mk({0}, Starts(n, lanes), Dists(n)) \cup Mk({0}, {-1 - i : i \in Few}, 0..(8 * Size(t) - 1))
         [] c = "R1" -> Mk({0}, 0..(n - 1), {0, 1, 2}) \cup Mk({0}, {-1 - i : i \in Few}, {0})
         [] c = "P1" -> Mk({0}, 0..(IF Thorough THEN 400 ELSE 40), 0..3)
         [] c = "L1" -> Mk({0}, 0..(n - 1), {0})
         [] c = "V4" -> Mk({0}, {-1 - i : i \in 0..(IF Thorough THEN 400 ELSE 40)}, {0}) \cup Mk({0}, 0..3, {0})

Flip(v, k) == [v EXCEPT ![k \div 8 + 1] = IF (@ \div P2[(k % 8) + 1]) % 2 = 1 THEN @ - P2[(k % 8) + 1] ELSE @ + P2[(k % 8) + 1]]
\* small factors in few lanes of a product, zero sometimes
SmallInt(t, x) == IF t \in Floats THEN (IF x = 0 THEN Rep(0, Size(t)) ELSE LET y == IF x < 0 THEN -x ELSE x IN
                        Flt(t, x < 0, IF y = 1 THEN 0 ELSE IF y < 4 THEN 1 ELSE 2, IF y = 3 THEN H ELSE IF y = 5 THEN H \div 2 ELSE 0))
                  ELSE IF x >= 0 THEN Wide(<<x>>, FALSE, Size(t)) ELSE IF Signed(t) THEN Neg(Wide(<<-x>>, FALSE, Size(t))) ELSE Wide(<<-x>>, FALSE, Size(t))
Args(k) ==
    LET t == k.t
        w == k.w
        sz == Size(t)
        lanes == w \div sz
        rnd(j) == Rnd(-4 * k.r + j + 64 * sz + k.d * 5, w)
        hot == (k.r * 5 + k.d) % lanes
        prod(i) == IF k.d = 0 THEN SmallInt(t, IF (i + k.r) % lanes \in {0, lanes \div 2} THEN 2 + (k.r % 2) ELSE IF (i * k.r) % 3 = 1 THEN -1 ELSE 1)
                   ELSE IF k.d = 1 THEN SmallInt(t, IF i = hot THEN -5 ELSE 1)
                   ELSE IF k.d = 2 THEN SmallInt(t, IF i = hot /\ k.r % 3 = 0 THEN 0 ELSE IF i = (hot + 1) % lanes THEN 3 ELSE IF i % 2 = 0 THEN 1 ELSE -1)
                   ELSE IF t \in Floats THEN SmallInt(t, IF i = hot THEN 3 ELSE 1) ELSE SubSeq(Rnd(k.r * 31 + i, sz), 1, sz)
        one(i) == SmallInt(t, IF i = hot THEN 1 ELSE 0)
        level(i) == V(t, IF i = hot THEN k.r + 1 ELSE k.r)
        same(i) == V(t, k.r)
    IN CASE k.c = "S2N" -> <<Single(t, w, k.r * 3 + k.n), Single(t, w, k.r * 3 + k.n + 1 + (Seed % 5))>>
         [] k.c \in {"M3", "M3u", "X2", "X2u"} -> IF k.r = 0 THEN <<Count8(w, 0), Count8(w, 1), Count8(w, 2)>>
                                                   ELSE <<Rnd(k.r * 11 + 1, w), Rnd(k.r * 11 + 2, w), Rnd(k.r * 11 + 3, w)>>
         [] k.c = "V2N" -> IF k.r < 0 THEN <<rnd(1), rnd(2)>> ELSE IF k.r = 0 THEN <<Count8(w, 0), Count8(w, 1)>> ELSE <<Count8(w, 2), Count8(w, 3)>>
         [] k.c = "V1" -> IF k.r < 0 THEN <<rnd(1)>> ELSE IF k.r >= 1000 THEN <<Bytes(w, k.r)>> ELSE <<Single(t, w, k.r)>>
         [] k.c = "V2" -> IF k.r < 0 THEN <<rnd(1), rnd(2)>> ELSE IF k.r >= 1000 THEN <<Bytes(w, k.r), Bytes(w, k.r + k.d)>> ELSE <<PairA(t, w, k.r), PairB(t, w, k.r, k.d)>>
         [] k.c = "H2" -> IF k.r < 0 THEN <<rnd(1), rnd(2)>> ELSE <<Adj(t, w, k.r, k.d), Adj(t, w, k.r + lanes \div 2, k.d)>>
         [] k.c = "E2" -> IF k.r < 0 THEN <<rnd(1), Flip(rnd(1), 8 * sz * ((k.d - k.r) % lanes) + k.d)>> ELSE <<PairA(t, w, k.r), PairB(t, w, k.r, k.d)>>
         [] k.c = "R1" -> IF k.r < 0 THEN <<rnd(1)>> ELSE IF k.d = 0 THEN <<Single(t, w, k.r)>> ELSE IF k.d = 1 THEN <<Cat(level, sz, w)>> ELSE <<Cat(one, sz, w)>>
         [] k.c = "P1" -> <<Cat(prod, sz, w)>>
         [] k.c = "L1" -> <<Cat(same, sz, w)>>
         [] k.c = "V4" -> IF k.r < 0 THEN <<rnd(1), rnd(2), rnd(3), rnd(4)>>
                          ELSE [j \in 1..4 |-> Count8(w, IF k.r = 0 THEN j - 1 ELSE IF k.r = 1 THEN 4 - j ELSE IF k.r = 2 THEN j + 1 ELSE 2 * j)]

Slice == {t \in PlanTypes : Size(t) = atoi(IOEnv.SZ)}
Init == call \in UNION {UNION {UNION {Cases(c, t, w) : c \in Class} : t \in Slice} : w \in PlanWidths \cap {atoi(IOEnv.BYTES)}}
Next == UNCHANGED call
Spec == Init /\ [][Next]_call

Emit == LET a == Args(call)
        IN PrintT("A|" \o call.c \o "|" \o call.t \o "x" \o Str(call.w \div Size(call.t)) \o "|" \o Str(call.n) \o "|" \o Str(a))

(***************************************************************************)
(* Laws of the specification, on the operands generated                    *)
(***************************************************************************)
LawsOf(x, y, t) ==
    IF t \in Floats THEN
        /\ (~IsNaN(x, t) /\ ~IsNaN(y, t)) => \/ LessT(x, y, t) \/ LessT(y, x, t) \/ EqualT(x, y, t)
        /\ ~(LessT(x, y, t) /\ LessT(y, x, t))
        /\ t = "f32" => To32Ok(To64(x), x) \/ IsNaN(x, t) \/ Exp(x, t) = 0
        /\ ~IsNaN(x, t) =>
             /\ \A op \in {"floor", "ceil", "trunc", "round"} : \A m \in Rounded(op, x, t) : Whole(m, t) /\ Rounded(op, m, t) = {m}
             /\ Rounded("trunc", x, t) \subseteq Rounded("floor", x, t) \cup Rounded("ceil", x, t)
             /\ \A m \in Rounded("floor", x, t) : ~LessT(x, [m EXCEPT ![Len(m)] = @ + IF Sgn(x) THEN 128 ELSE 0], t)
    ELSE
        LET n == Size(t) + 1
        IN /\ Fits(Val(x, t), t) /\ Wrap(Val(x, t), t) = x
           /\ Add(Val(x, t), Val(y, t)) = Add(Val(y, t), Val(x, t))
           /\ Sub(Add(Val(x, t), Val(y, t)), Val(y, t)) = Val(x, t)
           /\ ~LessT(x, y, t) \/ ~LessT(y, x, t)
           /\ LessT(x, y, t) \/ LessT(y, x, t) \/ x = y
           /\ ~LessT(SatAdd(x, y, t), MinOf(t), t) /\ ~LessT(MaxOf(t), SatAdd(x, y, t), t)
           /\ SatSub(x, x, t) = Rep(0, Size(t)) /\ SatAdd(x, Rep(0, Size(t)), t) = x
           /\ Clamp(Val(x, t), t) = x
           /\ Mul(x, y) = Mul(y, x)
           /\ Mul(x, Add(y, Rep(0, Size(t)))) = Mul(x, y)
           /\ (Signed(t) /\ ~IsNeg(x)) => AbsOf(x, t) = x
           /\ Ones(x) + Ones(Not(x)) = 8 * Size(t)
Laws == LET a == Args(call)
            sz == Size(call.t)
        IN LawsOf(Lane(a[1], sz, 1), Lane(a[Len(a)], sz, call.w \div sz), call.t)
=============================================================================
