-------------------------------- MODULE Lanes --------------------------------
(***************************************************************************)
(* What every operation on vectors returns.                                *)
(*                                                                         *)
(* A vector is the sequence of its bytes in memory order; lane i (from 1)  *)
(* of a vector of elements of sz bytes is the i-th group of sz bytes, the  *)
(* least significant first.  TLC's integers have 32 bits, so numbers are   *)
(* sequences of bytes too: two's complement, least significant byte first, *)
(* extended so that nothing overflows unless an operator says so.  Floats  *)
(* are taken apart into sign, exponent and mantissa.                       *)
(*                                                                         *)
(* A call is a record                                                      *)
(*   op   the operation          t, u  element type of operands and result *)
(*   a    operands (vectors)     n     an integer argument                 *)
(*   k    "ok" or "panic"        o     results (vectors or scalars)        *)
(*   r    a number returned                                                *)
(* Specified(c) says whether the call is within the domain of the          *)
(* operation, Allowed(c) whether the outcome is one the operation may have.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Types == {"u8", "i8", "u16", "i16", "u32", "i32", "f32", "u64", "i64", "f64"}
Floats == {"f32", "f64"}
Signeds == {"i8", "i16", "i32", "i64"}
Size(t) == CASE t \in {"u8", "i8"} -> 1 [] t \in {"u16", "i16"} -> 2
             [] t \in {"u32", "i32", "f32"} -> 4 [] t \in {"u64", "i64", "f64"} -> 8
Signed(t) == t \in Signeds

Lane(v, sz, i) == SubSeq(v, (i - 1) * sz + 1, i * sz)
Count(v, sz) == Len(v) \div sz
Rep(x, n) == [i \in 1..n |-> x]
Rev(x) == [i \in 1..Len(x) |-> x[Len(x) + 1 - i]]

(***************************************************************************)
(* Two's complement numbers of any length                                  *)
(***************************************************************************)
IsNeg(x) == x[Len(x)] >= 128
Wide(x, sg, n) == x \o Rep(IF sg /\ IsNeg(x) THEN 255 ELSE 0, n - Len(x))
\* the lane of a type as a number with room for one addition
Val(x, t) == Wide(x, Signed(t), Size(t) + 1)
RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(x, y, i, c, acc) ==
    IF i > Len(x) THEN acc
    ELSE LET s == x[i] + y[i] + c IN AddFrom(x, y, i + 1, s \div 256, Append(acc, s % 256))
Add(x, y) == AddFrom(x, y, 1, 0, <<>>)
Not(x) == [i \in 1..Len(x) |-> 255 - x[i]]
Sub(x, y) == AddFrom(x, Not(y), 1, 1, <<>>)
Neg(x) == Sub(Rep(0, Len(x)), x)
Less(x, y) == LET n == Len(x) + 1 IN IsNeg(Sub(Wide(x, TRUE, n), Wide(y, TRUE, n)))
IsZero(x) == \A i \in 1..Len(x) : x[i] = 0
Fits(x, t) ==
    LET sz == Size(t)
        fill == IF Signed(t) /\ x[sz] >= 128 THEN 255 ELSE 0
    IN \A i \in (sz + 1)..Len(x) : x[i] = fill
Wrap(x, t) == SubSeq(x, 1, Size(t))
MaxOf(t) == IF Signed(t) THEN Append(Rep(255, Size(t) - 1), 127) ELSE Rep(255, Size(t))
MinOf(t) == IF Signed(t) THEN Append(Rep(0, Size(t) - 1), 128) ELSE Rep(0, Size(t))
Clamp(x, t) == IF Fits(x, t) THEN Wrap(x, t) ELSE IF IsNeg(x) THEN MinOf(t) ELSE MaxOf(t)
\* product modulo 256^Len(x)
RECURSIVE MulFrom(_, _, _, _), MulByteFrom(_, _, _, _, _, _)
MulByteFrom(x, b, shift, i, c, acc) ==
    IF i > Len(x) THEN acc
    ELSE LET v == (IF i > shift THEN x[i - shift] * b ELSE 0) + c
         IN MulByteFrom(x, b, shift, i + 1, v \div 256, Append(acc, v % 256))
MulByte(x, b, shift) == MulByteFrom(x, b, shift, 1, 0, <<>>)   \* x * b * 256^shift, as long as x
MulFrom(x, y, i, acc) == IF i > Len(y) THEN acc ELSE MulFrom(x, y, i + 1, IF y[i] = 0 THEN acc ELSE Add(acc, MulByte(x, y[i], i - 1)))
Mul(x, y) == MulFrom(x, y, 1, Rep(0, Len(x)))

Pop8[b \in 0..255] == IF b = 0 THEN 0 ELSE (b % 2) + Pop8[b \div 2]
RECURSIVE PopFrom(_, _)
PopFrom(v, i) == IF i > Len(v) THEN 0 ELSE Pop8[v[i]] + PopFrom(v, i + 1)
Ones(v) == PopFrom(v, 1)

(***************************************************************************)
(* Floats                                                                  *)
(***************************************************************************)
MBits(t) == IF t = "f32" THEN 23 ELSE 52
Bias(t) == IF t = "f32" THEN 127 ELSE 1023
ExpMax(t) == IF t = "f32" THEN 255 ELSE 2047
Exp(x, t) == IF t = "f32" THEN (x[4] % 128) * 2 + x[3] \div 128 ELSE (x[8] % 128) * 16 + x[7] \div 16
Sgn(x) == x[Len(x)] >= 128
Mag(x) == [x EXCEPT ![Len(x)] = @ % 128]
P2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
Bit(x, k) == (x[k \div 8 + 1] \div P2[(k % 8) + 1]) % 2
LowAny(x, k) == \/ \E i \in 1..(k \div 8) : x[i] # 0
                \/ k % 8 # 0 /\ x[k \div 8 + 1] % P2[(k % 8) + 1] # 0
Clear(x, k) == [i \in 1..Len(x) |->
    IF i <= k \div 8 THEN 0
    ELSE IF i = k \div 8 + 1 /\ k % 8 # 0 THEN x[i] - (x[i] % P2[(k % 8) + 1]) ELSE x[i]]
Pow2(k, n) == [i \in 1..n |-> IF i = k \div 8 + 1 THEN P2[(k % 8) + 1] ELSE 0]
IsNaN(x, t) == Exp(x, t) = ExpMax(t) /\ LowAny(x, MBits(t))
IsInf(x, t) == Exp(x, t) = ExpMax(t) /\ ~LowAny(x, MBits(t))
FZero(x) == IsZero(Mag(x))
Bits(n, f(_)) ==   \* n bytes from their bits
    [i \in 1..n |-> LET b == 8 * (i - 1) IN f(b) + 2 * f(b + 1) + 4 * f(b + 2) + 8 * f(b + 3)
                                          + 16 * f(b + 4) + 32 * f(b + 5) + 64 * f(b + 6) + 128 * f(b + 7)]
\* a float of type t: sign, biased exponent, mantissa bits as a function of their position
Make(t, s, e, m(_)) ==
    LET mb == MBits(t)
        top == 8 * Size(t) - 1
        f(q) == IF q < mb THEN m(q) ELSE IF q < top THEN (e \div 2^(q - mb)) % 2 ELSE IF s THEN 1 ELSE 0
    IN Bits(Size(t), f)
Inf(t, s) == LET m(q) == 0 IN Make(t, s, ExpMax(t), m)
MaxFloat(t, s) == LET m(q) == 1 IN Make(t, s, ExpMax(t) - 1, m)
\* a number which orders floats that are not NaN, both zeroes alike
Key(x) == IF Sgn(x) THEN Neg(Append(Mag(x), 0)) ELSE Append(Mag(x), 0)
Top(x) == LET S == {k \in 0..(8 * Len(x) - 1) : Bit(x, k) = 1} IN CHOOSE k \in S : \A j \in S : j <= k

\* a whole number in two's complement as f64
IntTo64(x) ==
    IF IsZero(x) THEN Rep(0, 8)
    ELSE LET g == IF IsNeg(x) THEN Neg(x) ELSE x
             p == Top(g)
             m(q) == IF q >= 52 - p THEN Bit(g, q - (52 - p)) ELSE 0
         IN Make("f64", IsNeg(x), 1023 + p, m)
\* f32 as f64 (not for NaN)
To64(x) ==
    LET e == Exp(x, "f32")
        s == Sgn(x)
        z(q) == 0
        m(q) == IF q >= 29 THEN Bit(x, q - 29) ELSE 0
        p == Top(Mag(x))
        d(q) == IF q >= 52 - p THEN Bit(x, q - (52 - p)) ELSE 0
    IN IF FZero(x) THEN Make("f64", s, 0, z)
       ELSE IF e = 255 THEN Inf("f64", s)
       ELSE IF e = 0 THEN Make("f64", s, 1023 + p - 149, d)
       ELSE Make("f64", s, e - 127 + 1023, m)
\* what f64 may become as f32: exact if it can be, otherwise one of its neighbours;
\* out of range the largest or infinity
To32Ok(x, y) ==
    LET e == Exp(x, "f64") - 1023
        s == Sgn(x)
        m(q) == Bit(x, q + 29)
        lo == Make("f32", s, e + 127, m)
    IN IF IsNaN(x, "f64") THEN IsNaN(y, "f32")
       ELSE Sgn(y) = s /\
            IF FZero(x) THEN FZero(y)
            ELSE IF e > 127 THEN y \in {Inf("f32", s), MaxFloat("f32", s)}
            ELSE IF e < -126 THEN Exp(y, "f32") <= 1
            ELSE IF ~LowAny(x, 29) THEN y = lo
            ELSE y \in {lo, Add(lo, <<1, 0, 0, 0>>)}

\* whole part of a magnitude, and the next whole number away from zero
FracBits(x, t) == MBits(t) - (Exp(x, t) - Bias(t))
One(t) == LET z(q) == 0 IN Make(t, FALSE, Bias(t), z)
Whole(x, t) == FracBits(x, t) <= 0 \/ FZero(x) \/ (FracBits(x, t) <= MBits(t) /\ ~LowAny(x, FracBits(x, t)))
Down(x, t) == IF FracBits(x, t) <= 0 THEN Mag(x) ELSE IF FracBits(x, t) > MBits(t) THEN Rep(0, Size(t)) ELSE Clear(Mag(x), FracBits(x, t))
Up(x, t) == IF FracBits(x, t) > MBits(t) THEN One(t) ELSE Add(Clear(Mag(x), FracBits(x, t)), Pow2(FracBits(x, t), Size(t)))
\* the magnitudes to which a float may be rounded
Rounded(op, x, t) ==
    LET fb == FracBits(x, t)
        D == Down(x, t)
        U == Up(x, t)
        below == fb > MBits(t) + 1       \* less than a half
        half == IF fb > MBits(t) THEN TRUE ELSE Bit(x, fb - 1) = 1
        rest == IF fb > MBits(t) THEN LowAny(x, MBits(t)) ELSE LowAny(x, fb - 1)
    IN IF Whole(x, t) THEN {Mag(x)}
       ELSE CASE op = "trunc" -> {D}
              [] op = "floor" -> IF Sgn(x) THEN {U} ELSE {D}
              [] op = "ceil" -> IF Sgn(x) THEN {D} ELSE {U}
              [] op = "round" -> IF below \/ ~half THEN {D} ELSE IF rest THEN {U} ELSE {D, U}
RoundOk(op, x, y, t) ==
    IsNaN(x, t) \/ (Mag(y) \in Rounded(op, x, t) /\ (Sgn(x) = Sgn(y) \/ FZero(y)))

\* floats with a short binary expansion as sixteenths, for sums and products that are exact
Mant24(x, t) == 8388608 + IF t = "f32" THEN (x[3] % 128) * 65536 + x[2] * 256 + x[1]
                          ELSE (x[7] % 16) * 524288 + x[6] * 2048 + x[5] * 8 + x[4] \div 32
Short(x, t) ==
    \/ FZero(x)
    \/ LET e == Exp(x, t) - Bias(t)
       IN e \in (-4)..18 /\ (t = "f64" => ~LowAny(x, 29)) /\ Mant24(x, t) % 2^(19 - e) = 0
Sixteenths(x, t) == IF FZero(x) THEN 0
                    ELSE LET e == Exp(x, t) - Bias(t)
                             v == Mant24(x, t) \div 2^(19 - e)
                         IN IF Sgn(x) THEN -v ELSE v
AllShort(v, t) == \A i \in 1..Count(v, Size(t)) : Short(Lane(v, Size(t), i), t)

\* estimates: mantissas cut to 15 bits
Mant15(x) == (16777216 + (x[3] % 128) * 131072 + x[2] * 512 + x[1] * 2) \div 1024
Near(v, target, slack) == v >= target - slack /\ v <= target + slack
E32(x) == Exp(x, "f32") - 127
Normal(x) == E32(x) \in (-100)..100
RecipOk(x, y) ==
    IF FZero(x) THEN y = Inf("f32", Sgn(x))
    ELSE IF IsInf(x, "f32") THEN FZero(y) /\ Sgn(x) = Sgn(y)
    ELSE Normal(x) =>
         LET s == E32(x) + E32(y)
             p == Mant15(x) * Mant15(y)
         IN Sgn(x) = Sgn(y) /\ s \in (-2)..0 /\ Near(p, 2^(28 - s), 2^(18 - s))
RsqrtOk(x, y) ==
    IF FZero(x) THEN IsInf(y, "f32")
    ELSE IF ~Sgn(x) /\ IsInf(x, "f32") THEN FZero(y)
    ELSE (Normal(x) /\ ~Sgn(x)) =>
         LET s == 2 * E32(y) + E32(x)
             q == (Mant15(y) * Mant15(y)) \div 32768
             p == q * Mant15(x)
         IN ~Sgn(y) /\ s \in (-3)..0 /\ Near(p, 2^(27 - s), 2^(27 - s) \div 440)

\* square roots: correctly rounded.  Significands as whole numbers of 16 bytes.
Sig(x, t) ==
    LET n == IF t = "f32" THEN 3 ELSE 7
        lim == IF t = "f32" THEN 128 ELSE 16
        lead == IF Exp(x, t) = 0 THEN 0 ELSE lim
    IN Wide([i \in 1..n |-> IF i < n THEN x[i] ELSE (x[n] % lim) + lead], FALSE, 16)
\* the exponent of the last bit of the significand
Last(x, t) == (IF Exp(x, t) = 0 THEN 1 ELSE Exp(x, t)) - Bias(t) - MBits(t)
Plus(x, n) == IF n >= 0 THEN Add(x, Wide(<<n>>, FALSE, 16)) ELSE Sub(x, Wide(<<-n>>, FALSE, 16))
SqrtOk(x, y, t) ==
    IF FZero(x) THEN y = x
    ELSE IF IsNaN(x, t) \/ Sgn(x) THEN IsNaN(y, t)
    ELSE IF IsInf(x, t) THEN y = x
    ELSE /\ ~Sgn(y) /\ Exp(y, t) \in 1..(ExpMax(t) - 1)
         /\ LET sx == Sig(x, t)
                \* in quarters of the last place of y, squared
                shift == Last(x, t) + 4 - 2 * Last(y, t)
                four == Mul(Sig(y, t), Pow2(2, 16))
                lo == Plus(four, IF ~LowAny(y, MBits(t)) THEN -1 ELSE -2)
                hi == Plus(four, 2)
            IN shift \in 0..126 /\ Top(sx) + shift <= 126 /\
               LET X == Mul(sx, Pow2(shift, 16))
               IN ~Less(X, Mul(lo, lo)) /\ ~Less(Mul(hi, hi), X)

(***************************************************************************)
(* Lane-wise operations: the lane of the result                            *)
(***************************************************************************)
AbsOf(x, t) == IF t \in Floats THEN Mag(x) ELSE IF IsNeg(x) THEN Neg(x) ELSE x
LessT(x, y, t) == IF t \in Floats THEN Less(Key(x), Key(y)) ELSE Less(Val(x, t), Val(y, t))
MinOk(x, y, z, t) ==
    IF t \in Floats /\ (IsNaN(x, t) \/ IsNaN(y, t)) THEN TRUE
    ELSE IF LessT(x, y, t) THEN z = x ELSE IF LessT(y, x, t) THEN z = y ELSE z \in {x, y}
MaxOk(x, y, z, t) ==
    IF t \in Floats /\ (IsNaN(x, t) \/ IsNaN(y, t)) THEN TRUE
    ELSE IF LessT(x, y, t) THEN z = y ELSE IF LessT(y, x, t) THEN z = x ELSE z \in {x, y}
SatAdd(x, y, t) == Clamp(Add(Val(x, t), Val(y, t)), t)
SatSub(x, y, t) == Clamp(Sub(Val(x, t), Val(y, t)), t)
EqualT(x, y, t) == IF t \in Floats THEN ~IsNaN(x, t) /\ ~IsNaN(y, t) /\ (x = y \/ (FZero(x) /\ FZero(y))) ELSE x = y
ConvOk(x, y, t, u) ==   \* y is x in the wider type u
    IF t \in Floats THEN IF IsNaN(x, t) THEN IsNaN(y, u) ELSE y = To64(x)
    ELSE IF u \in Floats THEN y = IntTo64(Val(x, t)) ELSE y = Wide(x, Signed(t), Size(u))
NarrowOk(x, y, t, u) == IF t \in Floats THEN To32Ok(x, y) ELSE y = Clamp(Val(x, t), u)

(***************************************************************************)
(* Calls                                                                   *)
(***************************************************************************)
LaneWise == {"abs", "min", "max", "saturating_add", "saturating_sub", "eq_mask", "ne_mask", "floor", "ceil", "trunc", "round",
             "recip", "rsqrt", "sqrt", "swap_bytes", "to_be", "from_be"}
LaneOk(c, i) ==
    LET t == c.t
        sz == Size(t)
        x == Lane(c.a[1], sz, i)
        y == Lane(c.a[2], sz, i)
        z == Lane(c.o[1], sz, i)
    IN CASE c.op = "abs" -> z = AbsOf(x, t) \/ (t \in Floats /\ IsNaN(x, t))
         [] c.op = "min" -> MinOk(x, y, z, t)
         [] c.op = "max" -> MaxOk(x, y, z, t)
         [] c.op = "saturating_add" -> z = SatAdd(x, y, t)
         [] c.op = "saturating_sub" -> z = SatSub(x, y, t)
         [] c.op = "eq_mask" -> z = Rep(IF EqualT(x, y, t) THEN 255 ELSE 0, sz)
         [] c.op = "ne_mask" -> z = Rep(IF EqualT(x, y, t) THEN 0 ELSE 255, sz)
         [] c.op \in {"floor", "ceil", "trunc", "round"} -> RoundOk(c.op, x, z, t)
         [] c.op = "recip" -> RecipOk(x, z)
         [] c.op = "rsqrt" -> RsqrtOk(x, z)
         [] c.op = "sqrt" -> SqrtOk(x, z, t)
         [] c.op \in {"swap_bytes", "to_be", "from_be"} -> z = Rev(x)

\* lanes combined by the horizontal operations: lane i of the result
Pair(c, i) == LET src == IF i % 2 = 1 THEN c.a[1] ELSE c.a[2]
                  p == (i - 1) \div 2
              IN <<Lane(src, Size(c.t), 2 * p + 1), Lane(src, Size(c.t), 2 * p + 2)>>
HVal(c, i) == LET p == Pair(c, i)
                  x == Val(p[1], c.t)
                  y == Val(p[2], c.t)
              IN IF c.op \in {"hadd", "saturating_hadd"} THEN Add(x, y) ELSE Sub(x, y)
HFloat(c, i) == LET p == Pair(c, i)
                    x == Sixteenths(p[1], c.t)
                    y == Sixteenths(p[2], c.t)
                IN IF c.op = "hadd" THEN x + y ELSE x - y
HorizontalOk(c) ==
    LET t == c.t
        sz == Size(t)
        W == Count(c.a[1], sz)
        z(i) == Lane(c.o[1], sz, i)
    IN IF c.op \in {"saturating_hadd", "saturating_hsub"} THEN c.k = "ok" /\ \A i \in 1..W : z(i) = Clamp(HVal(c, i), t)
       ELSE IF t \in Floats THEN c.k = "ok" /\ \A i \in 1..W : Short(z(i), t) /\ Sixteenths(z(i), t) = HFloat(c, i)
       ELSE \/ c.k = "ok" /\ \A i \in 1..W : z(i) = Wrap(HVal(c, i), t)
            \/ c.k = "panic" /\ \E i \in 1..W : ~Fits(HVal(c, i), t)

\* sums: of all lanes, of the positive and of the negative ones
RECURSIVE SumFrom(_, _, _, _, _, _)
SumFrom(v, t, i, which, n, acc) ==
    IF i > Count(v, Size(t)) THEN acc
    ELSE LET x == Wide(Lane(v, Size(t), i), Signed(t), n)
             use == which = "all" \/ (which = "neg") = IsNeg(x)
         IN SumFrom(v, t, i + 1, which, n, IF use THEN Add(acc, x) ELSE acc)
SumOf(v, t, which, n) == SumFrom(v, t, 1, which, n, Rep(0, n))
SumOk(c, t, r) ==
    LET n == 9
    IN \/ c.k = "ok" /\ c.o[1] = Wrap(SumOf(c.a[1], t, "all", n), r)
       \/ /\ c.k = "panic"
          /\ ~Fits(SumOf(c.a[1], t, "pos", n), r) \/ ~Fits(SumOf(c.a[1], t, "neg", n), r)
RECURSIVE FSumFrom(_, _, _)
FSumFrom(v, t, i) == IF i > Count(v, Size(t)) THEN 0 ELSE Sixteenths(Lane(v, Size(t), i), t) + FSumFrom(v, t, i + 1)

RECURSIVE ProdFrom(_, _, _, _), BigFrom(_, _, _, _)
ProdFrom(v, t, i, acc) == IF i > Count(v, Size(t)) THEN acc ELSE ProdFrom(v, t, i + 1, Mul(acc, Lane(v, Size(t), i)))
\* could some partial product leave the range of the type?
BigFrom(v, t, i, acc) ==
    LET sz == Size(t)
    IN IF (Signed(t) /\ acc[sz] >= 128) \/ (\E j \in (sz + 1)..Len(acc) : acc[j] # 0) THEN TRUE
       ELSE IF i > Count(v, sz) THEN FALSE
       ELSE LET x == Lane(v, sz, i)
                g == IF Signed(t) THEN AbsOf(x, t) ELSE x
            IN BigFrom(v, t, i + 1, IF IsZero(g) THEN acc ELSE Mul(acc, Wide(g, FALSE, 2 * sz)))
ProductOk(c) ==
    LET sz == Size(c.t)
    IN \/ c.k = "ok" /\ c.o[1] = ProdFrom(c.a[1], c.t, 1, Pow2(0, sz))
       \/ c.k = "panic" /\ BigFrom(c.a[1], c.t, 1, Pow2(0, 2 * sz))
RECURSIVE FProdFrom(_, _, _, _)
\* product of whole floats; 0 stands for "too large to be exact"
FProdFrom(v, t, i, acc) ==
    IF i > Count(v, Size(t)) THEN acc
    ELSE LET s == Sixteenths(Lane(v, Size(t), i), t)
         IN IF s % 16 # 0 \/ s = 0 \/ acc > 4096 \/ acc < -4096 \/ s > 16 * 64 \/ s < -16 * 64 THEN 0
            ELSE LET p == acc * (s \div 16) IN IF p = 0 THEN 0 ELSE FProdFrom(v, t, i + 1, p)

(***************************************************************************)
(* Operations which only move lanes: which lane of which operand is lane i *)
(* of result j (W lanes).  Operand 0 is "all bits clear", -1 "all set".    *)
(***************************************************************************)
Moves == {"halfs", "interleave", "partition", "partition_mask", "ones", "zeroes", "splat", "default", "merge_halves",
          "merge_interleaved", "merge_partitioned", "destride_two", "destride_four"}
From(c, W, j, i) ==
    CASE c.op = "halfs" -> <<IF i <= W \div 2 THEN 1 ELSE 2, 1>>
      [] c.op = "interleave" -> <<IF i % 2 = 1 THEN 1 ELSE 2, 1>>
      [] c.op = "partition" -> <<IF i <= c.n THEN 1 ELSE 2, 1>>
      [] c.op = "partition_mask" -> <<IF i <= c.n THEN 0 ELSE -1, 1>>
      [] c.op = "ones" -> <<-1, 1>>
      [] c.op \in {"zeroes", "default"} -> <<0, 1>>
      [] c.op = "splat" -> <<1, 1>>
      [] c.op = "merge_halves" -> <<IF i <= W \div 2 THEN 1 ELSE 2, i>>
      [] c.op = "merge_interleaved" -> <<IF i % 2 = 1 THEN 1 ELSE 2, i>>
      [] c.op = "merge_partitioned" -> <<IF i <= c.n THEN 1 ELSE 2, i>>
      [] c.op = "destride_two" -> LET p == 2 * (i - 1) + j - 1 IN <<p \div W + 1, (p % W) + 1>>
      [] c.op = "destride_four" -> LET p == 4 * (i - 1) + j - 1 IN <<p \div W + 1, (p % W) + 1>>
Moved(c, W, j, i) ==
    LET f == From(c, W, j, i)
    IN IF f[1] = 0 THEN Rep(0, Size(c.t)) ELSE IF f[1] = -1 THEN Rep(255, Size(c.t)) ELSE Lane(c.a[f[1]], Size(c.t), f[2])
MoveOk(c) ==
    LET sz == Size(c.t)
        W == Count(c.o[1], sz)
        results == IF c.op = "destride_two" THEN 2 ELSE IF c.op = "destride_four" THEN 4 ELSE 1
    IN /\ Len(c.o) = results
       /\ \A j \in 1..results : Len(c.o[j]) = c.w /\ \A i \in 1..W : Lane(c.o[j], sz, i) = Moved(c, W, j, i)

(***************************************************************************)
(* Memory and single lanes.  The first two operands, one after the other,  *)
(* are a collection (for a lane: the first is the vector, the second holds *)
(* the scalar).  r = 1: the call panicked; a collection is logged anyway.  *)
(***************************************************************************)
MemOps == {"load", "uload", "store", "ustore", "extract", "uextract", "replace", "ureplace"}
InReach(c, W) == c.n >= 0 /\ c.n <= IF c.op \in {"load", "uload", "store", "ustore"} THEN W ELSE W - 1
Patch(b, x, off) == [i \in 1..Len(b) |-> IF i > off /\ i <= off + Len(x) THEN x[i - off] ELSE b[i]]
MemOk(c, sz, W) ==
    LET buf == c.a[1] \o c.a[2]
    IN IF ~InReach(c, W) THEN c.r = 1 /\ (c.op = "store" => c.o[1] = buf)
       ELSE /\ c.r = 0 /\ Len(c.o) = 1
            /\ c.o[1] = CASE c.op \in {"load", "uload"} -> SubSeq(buf, c.n * sz + 1, c.n * sz + c.w)
                          [] c.op \in {"store", "ustore"} -> Patch(buf, c.a[3], c.n * sz)
                          [] c.op \in {"extract", "uextract"} -> Lane(c.a[1], sz, c.n + 1)
                          [] c.op \in {"replace", "ureplace"} -> Patch(c.a[1], Lane(c.a[2], sz, 1), c.n * sz)

Casts == {"be_u8s", "be_i8s", "be_u16s", "be_i16s", "be_u32s", "be_i32s", "be_u64s", "be_i64s", "be_f32s_unchecked", "be_f64s_unchecked"}
Horizontal == {"hadd", "hsub", "saturating_hadd", "saturating_hsub"}

\* w is the size of a vector in bytes
Specified(c) ==
    CASE c.op \in {"partition", "partition_mask", "merge_partitioned"} -> c.n >= 0 /\ c.n <= c.w \div Size(c.t)
      [] c.op \in {"uload", "ustore", "uextract", "ureplace"} -> InReach(c, c.w \div Size(c.t))
      [] c.op \in {"hadd", "hsub"} -> c.t \notin Floats \/ (AllShort(c.a[1], c.t) /\ AllShort(c.a[2], c.t))
      [] c.op = "sum" -> c.t \notin Floats \/ AllShort(c.a[1], c.t)
      [] c.op = "sum_upcast" -> c.t \notin Floats
      [] c.op = "product" -> c.t \notin Floats \/ (AllShort(c.a[1], c.t) /\ FProdFrom(c.a[1], c.t, 1, 1) # 0)
      [] c.op = "coalesce" -> \A i \in 2..Count(c.a[1], Size(c.t)) : EqualT(Lane(c.a[1], Size(c.t), 1), Lane(c.a[1], Size(c.t), i), c.t)
                              /\ EqualT(Lane(c.a[1], Size(c.t), 1), Lane(c.a[1], Size(c.t), 1), c.t)
      [] OTHER -> TRUE

Allowed(c) ==
    LET t == c.t
        sz == Size(t)
        W == c.w \div sz
        ok == c.k = "ok"
        whole == ok /\ Len(c.o) = 1 /\ Len(c.o[1]) = c.w
    IN CASE c.op \in LaneWise -> whole /\ \A i \in 1..W : LaneOk(c, i)
         [] c.op \in Horizontal -> (ok => whole) /\ HorizontalOk(c)
         [] c.op = "merge_partitioned" -> (ok /\ MoveOk(c)) \/ (c.k = "panic" /\ c.n = W)
         [] c.op \in Moves -> ok /\ MoveOk(c)
         [] c.op \in MemOps -> ok /\ MemOk(c, sz, W)
         [] c.op \in Casts \cup {"to_le", "from_le", "scalar_reduce", "updown"} ->
                ok /\ (c.o[1] = c.a[1] \/ (c.op = "updown" /\ t \in Floats /\ \A i \in 1..W :
                        LET x == Lane(c.a[1], sz, i) z == Lane(c.o[1], sz, i)
                        IN IF IsNaN(x, t) THEN IsNaN(z, t) ELSE z = x \/ (IsInf(x, t) /\ z = MaxFloat(t, Sgn(x)))
                                                            \/ (Exp(x, t) = 0 /\ Exp(z, t) <= 1)))
         [] c.op = "upcast" ->
                /\ ok /\ Len(c.o) = 2 /\ Len(c.o[1]) = c.w /\ Len(c.o[2]) = c.w
                /\ \A i \in 1..(W \div 2) : /\ ConvOk(Lane(c.a[1], sz, i), Lane(c.o[1], 2 * sz, i), t, c.u)
                                            /\ ConvOk(Lane(c.a[1], sz, W \div 2 + i), Lane(c.o[2], 2 * sz, i), t, c.u)
         [] c.op = "saturating_downcast" ->
                /\ whole
                /\ \A i \in 1..W : /\ NarrowOk(Lane(c.a[1], sz, i), Lane(c.o[1], sz \div 2, i), t, c.u)
                                   /\ NarrowOk(Lane(c.a[2], sz, i), Lane(c.o[1], sz \div 2, W + i), t, c.u)
         [] c.op = "count_ones" -> ok /\ c.r = Ones(c.a[1])
         [] c.op = "count_zeroes" -> ok /\ c.r = 8 * c.w - Ones(c.a[1])
         [] c.op = "sum" -> IF t \in Floats THEN ok /\ Short(c.o[1], t) /\ Sixteenths(c.o[1], t) = FSumFrom(c.a[1], t, 1) ELSE SumOk(c, t, t)
         [] c.op = "sum_upcast" -> SumOk(c, IF t = "u64" THEN "i64" ELSE t, "i64")
         [] c.op = "product" -> IF t \in Floats THEN ok /\ Short(c.o[1], t) /\ Sixteenths(c.o[1], t) = 16 * FProdFrom(c.a[1], t, 1, 1) ELSE ProductOk(c)
         [] c.op = "coalesce" -> ok /\ EqualT(c.o[1], Lane(c.a[1], sz, 1), t)
=============================================================================
