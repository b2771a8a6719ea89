-------------------------------- MODULE Iter --------------------------------
(***************************************************************************)
(* The behaviour of faster's iterators, as a state machine whose actions   *)
(* are the public calls.                                                   *)
(*                                                                         *)
(* A state `s` is a record                                                 *)
(*   k    kind: iter, stride, zip, zipstride, szip, adapt, arr             *)
(*   w    lanes per vector of the (first) source, sz its bytes per lane,   *)
(*        sg 1 if its element type is signed                               *)
(*   fns  the maps applied, in order: [f |-> name, x |-> parameter]        *)
(*   st   the streams iterated in lockstep, each a record                  *)
(*          d  the elements the iterator describes                         *)
(*          e  d, then what random access may or may not reach (strides)   *)
(*          f  the lanes of its default vector                             *)
(*   len  number of elements of every stream                               *)
(*   pos  number of elements consumed                                      *)
(* Results(s, op, a) is the set of outcomes the specification allows for   *)
(* the call `op` with arguments `a`: records [s |-> next state, o |-> obs] *)
(* where obs has                                                           *)
(*   r    "some" / "none" / "ok" / "panic"                                 *)
(*   n    padding lanes (end), closure calls (bulk calls), final           *)
(*        accumulator (reduce)                                             *)
(*   v    a sequence of sequences of lanes                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

JUNK == 987654321          \* how the harness logs an unrepresentable value
ANY  == -123456789         \* a lane the specification leaves open

Pow2(n) == 2 ^ n
MinOf(a, b) == IF a < b THEN a ELSE b

(***************************************************************************)
(* Streams.  A path is a sequence of <<stride, offset>>.                   *)
(***************************************************************************)
\* the complete groups only
Deint1(d, q) == [i \in 1..(Len(d) \div q[1]) |-> d[(i - 1) * q[1] + q[2] + 1]]
\* with the elements of an incomplete last group
Ext1(d, q) == [i \in 1..((Len(d) - q[2] + q[1] - 1) \div q[1]) |-> d[(i - 1) * q[1] + q[2] + 1]]
RECURSIVE Deint(_, _), Ext(_, _)
Deint(d, p) == IF p = <<>> THEN d ELSE Deint(Deint1(d, p[1]), Tail(p))
Ext(d, p)   == IF p = <<>> THEN d ELSE Ext(Ext1(d, p[1]), Tail(p))

Stream(x) == [d |-> Deint(x.d, x.p), e |-> Ext(x.d, x.p), f |-> x.f]
Anys(w) == [j \in 1..w |-> ANY]
SzipStreams(x, w) ==
    LET e == Deint(x.d, x.p)
        d == SubSeq(e, x.pre + 1, Len(e))
        One(k) == LET y == Deint1(d, <<2, k>>) IN [d |-> y, e |-> y, f |-> Anys(w)]
    IN <<One(0), One(1)>>

\* May a group of streams be iterated in lockstep at all?
Zippable(st) == \A i \in 1..Len(st) : Len(st[i].d) = Len(st[1].d) /\ Len(st[i].f) = Len(st[1].f)

\* The state of a freshly built object; `b` describes how it was built.
Start(b) ==
    LET st == IF b.k = "szip" THEN SzipStreams(b.st[1], b.w) ELSE [i \in 1..Len(b.st) |-> Stream(b.st[i])]
    IN [k |-> b.k, w |-> b.w, sz |-> b.sz, sg |-> b.sg, fns |-> b.fns, st |-> st,
        len |-> Len(st[1].d),
        pos |-> IF b.k = "szip" THEN 0 ELSE b.st[1].pre,
        base |-> IF b.k = "szip" THEN b.st[1].pre ELSE 0,
        \* a next() of a stride-zip that found a single vector holds it back
        held |-> FALSE,
        dead |-> FALSE]
\* "misstride": a stride with a list of defaults of another length
MustReject(b) == b.k = "misstride" \/ (b.k \in {"zip", "zipstride"} /\ ~Zippable([i \in 1..Len(b.st) |-> Stream(b.st[i])]))

(***************************************************************************)
(* Lane functions.                                                         *)
(***************************************************************************)
Norm(s, x) ==
    IF x = ANY THEN ANY
    ELSE IF s.sz <= 2
         THEN LET m == Pow2(8 * s.sz)
                  y == x % m
              IN IF s.sg = 1 /\ y >= m \div 2 THEN y - m ELSE y
         ELSE IF s.sg = 0 /\ x < 0 THEN JUNK ELSE x

Lane1(f, x, j) == IF x = ANY THEN ANY
                  ELSE CASE f = "inc" -> x + 1
                         [] f = "lane" -> x + j - 1
                         [] f = "dbl" -> 2 * x
LaneMap(s, f, v) == [j \in 1..Len(v) |-> Norm(s, Lane1(f, v[j], j))]

\* reinterpret lanes of `a` bytes as lanes of `b` bytes (little endian)
ByteAt(x, i) == IF i >= 4 THEN 0 ELSE (x \div Pow2(8 * i)) % 256
Rebyte(v, a, b) ==
    LET ByteOf(i) == ByteAt(v[(i \div a) + 1], i % a)      \* i-th byte, from 0
        Lane(j) == LET RECURSIVE Sum(_)
                       Sum(i) == IF i >= MinOf(b, 4) THEN 0 ELSE ByteOf((j - 1) * b + i) * Pow2(8 * i) + Sum(i + 1)
                   IN Sum(0)
    IN [j \in 1..((Len(v) * a) \div b) |-> Lane(j)]

ApplyFn(s, fn, v) == IF fn.f = "to" THEN Rebyte(v, s.sz, fn.x) ELSE LaneMap(s, fn.f, v)
RECURSIVE ApplyFns(_, _, _)
ApplyFns(s, fns, v) == IF fns = <<>> THEN v ELSE ApplyFns(s, Tail(fns), ApplyFn(s, fns[1], v))

Zipped(s) == s.k \in {"zip", "zipstride", "szip"}
Add2(x, y) == IF x = ANY \/ y = ANY THEN ANY ELSE x + y
Combine(s, fn, t) ==
    IF fn.f = "add" THEN [j \in 1..Len(t[1]) |-> Norm(s, Add2(t[1][j], t[2][j]))]
    ELSE [j \in 1..Len(t[1]) |-> Norm(s, t[fn.x + 1][j])]

\* What a tuple of source vectors becomes on its way out.
Deliver(s, t) ==
    IF s.fns = <<>> THEN t
    ELSE IF Zipped(s) THEN <<ApplyFns(s, Tail(s.fns), Combine(s, s.fns[1], t))>>
    ELSE <<ApplyFns(s, s.fns, t[1])>>

LastTo(s) == s.fns # <<>> /\ s.fns[Len(s.fns)].f = "to"
SzOut(s) == IF LastTo(s) THEN s.fns[Len(s.fns)].x ELSE s.sz
WOut(s)  == (s.w * s.sz) \div SzOut(s)
PadOut(s, n) == (n * s.sz) \div SzOut(s)

(***************************************************************************)
(* Vectors at a position.                                                  *)
(***************************************************************************)
Rem(s) == s.len - s.pos
FullAt(s, p) == [i \in 1..Len(s.st) |-> SubSeq(s.st[i].d, p + 1, p + s.w)]
TailAt(s, p) ==
    LET n == s.w - (s.len - p)
    IN [i \in 1..Len(s.st) |-> [j \in 1..s.w |-> IF j <= n THEN s.st[i].f[j] ELSE s.st[i].d[p + j - n]]]

\* Everything still to be delivered: [v |-> vectors, n |-> padding lanes]
FullsFrom(s, p) == [i \in 1..((s.len - p) \div s.w) |-> [v |-> Deliver(s, FullAt(s, p + (i - 1) * s.w)), n |-> 0]]
TailFrom(s, p) ==
    LET r == (s.len - p) % s.w
    IN IF r = 0 THEN <<>> ELSE <<[v |-> Deliver(s, TailAt(s, s.len - r)), n |-> PadOut(s, s.w - r)]>>
Deliveries(s) == FullsFrom(s, s.pos) \o TailFrom(s, s.pos)

\* the concatenation of a sequence of sequences, by halves
RECURSIVE FlatR(_, _, _)
FlatR(q, a, b) == IF a > b THEN <<>> ELSE IF a = b THEN q[a] ELSE LET m == (a + b) \div 2 IN FlatR(q, a, m) \o FlatR(q, m + 1, b)
Flat(q) == FlatR(q, 1, Len(q))

\* all lanes delivered / the lanes holding elements only
AllLanes(s) == LET D == Deliveries(s) IN Flat([i \in 1..Len(D) |-> D[i].v[1]])
Images(s) == LET D == Deliveries(s) IN Flat([i \in 1..Len(D) |-> SubSeq(D[i].v[1], D[i].n + 1, Len(D[i].v[1]))])
\* number of closure calls of one complete pass
Ticks(s) == (Rem(s) \div s.w + (IF Rem(s) % s.w = 0 THEN 0 ELSE 1)) * Len(s.fns)

(***************************************************************************)
(* Calls.                                                                  *)
(***************************************************************************)
Obs(r, n, v) == [r |-> r, n |-> n, v |-> v]
Out(s, r, n, v) == {[s |-> s, o |-> Obs(r, n, v)]}
Exhausted(s) == [s EXCEPT !.pos = s.len, !.held = FALSE]
Panics(s) == Out([s EXCEPT !.dead = TRUE], "panic", 0, <<>>)
SrcLen(s) == IF s.k = "szip" THEN 2 * s.len + s.base ELSE s.len

Next_(s) ==
    IF Rem(s) >= s.w THEN Out([s EXCEPT !.pos = @ + s.w], "some", 0, Deliver(s, FullAt(s, s.pos)))
    ELSE Out([s EXCEPT !.held = (s.k = "szip" /\ 2 * Rem(s) >= s.w)], "none", 0, <<>>)

End_(s) ==
    IF Rem(s) = 0 THEN Out(s, "none", 0, <<>>)
    ELSE Out(Exhausted(s), "some", PadOut(s, s.w - Rem(s)), Deliver(s, TailAt(s, s.pos)))

Query(s) ==
    LET V(l) == <<<<s.pos, s.len, s.pos \div s.w, s.len \div s.w, WOut(s), SzOut(s), l>>>>
    IN UNION {Out(s, "ok", 0, V(l)) : l \in {s.len \div s.w, (SrcLen(s) \div s.w) \div (IF s.k = "szip" THEN 2 ELSE 1)}}

Logged(s, acc) == LET D == Deliveries(s) IN [i \in 1..Len(D) |-> (IF acc THEN <<6 + i>> ELSE <<>>) \o Flat(D[i].v)]

\* a buffer of m elements whose content the harness knows
Buffer(m) == [i \in 1..m |-> 101 + ((i - 1) % 20)]
NormBuf(s, b) == [i \in 1..Len(b) |->
                    LET t == [s EXCEPT !.sz = SzOut(s), !.sg = IF LastTo(s) THEN 0 ELSE s.sg] IN Norm(t, b[i])]
Fill(s, y, m) ==
    IF m < Len(y) THEN Panics(s)
    ELSE Out(Exhausted(s), "ok", Ticks(s), <<y \o SubSeq(NormBuf(s, Buffer(m)), Len(y) + 1, m)>>)

Unroll(s, amt, k) ==
    IF amt > 8 THEN Panics(s)
    ELSE LET full == IF amt = 0 THEN 0 ELSE Rem(s) \div s.w
             Size(i) == LET left == full - (i - 1) * amt IN IF left <= 0 THEN 0 ELSE MinOf(left, amt)
             Chunk(i) == Flat([j \in 1..Size(i) |-> Deliver(s, FullAt(s, s.pos + ((i - 1) * amt + j - 1) * s.w))[1]])
             taken == MinOf(full, k * amt)
             \* the position in chunks, afterwards
             chunk == IF amt = 0 THEN 0 ELSE ((s.pos + taken * s.w) \div s.w) \div amt
         IN Out([s EXCEPT !.pos = @ + taken * s.w], "ok", chunk, [i \in 1..k |-> Chunk(i)])

Fits(s, off, n, lim) == off >= 0 /\ off + n <= lim
\* Random access.  A stride may or may not reach the incomplete last group.
Load(s, off, n) ==
    (IF Fits(s, off, n, s.len) THEN {} ELSE Out(s, "panic", 0, <<>>))
    \union (IF Fits(s, off, n, Len(s.st[1].e)) THEN Out(s, "ok", 0, <<SubSeq(s.st[1].e, off + 1, off + n)>>) ELSE {})

ForEach(s, f) ==
    LET nm == CASE f = 0 -> "inc" [] f = 1 -> "lane" [] f = 2 -> "dbl"
        full == Rem(s) \div s.w
        r == Rem(s) % s.w
        Img(i) == \* 1-based index of an element
            LET q == i - 1 - s.pos
            IN IF q < 0 THEN s.st[1].d[i]
               ELSE IF q < full * s.w THEN Norm(s, Lane1(nm, s.st[1].d[i], (q % s.w) + 1))
               ELSE Norm(s, Lane1(nm, s.st[1].d[i], s.w - r + (q - full * s.w) + 1))
        d2 == [i \in 1..s.len |-> Img(i)]
    IN Out([Exhausted(s) EXCEPT !.st[1].d = d2, !.st[1].e = d2], "ok", full + (IF r = 0 THEN 0 ELSE 1), <<d2>>)

(* Collections: random access and vectors; `v` is <<what was read, whole content>>. *)
StoreVal(w) == [j \in 1..w |-> 96 + ((j - 1) % 24)]
Overlay(d, x, off) == [i \in 1..Len(d) |-> IF i > off /\ i <= off + Len(x) THEN x[i - off] ELSE d[i]]
ArrPanic(s) == Out(s, "panic", 0, <<<<>>, s.st[1].d>>)
ArrLoad(s, off, n) == IF Fits(s, off, n, s.len) THEN Out(s, "ok", 0, <<SubSeq(s.st[1].d, off + 1, off + n), s.st[1].d>>) ELSE ArrPanic(s)
ArrStore(s, off, x) == IF Fits(s, off, Len(x), s.len)
                       THEN LET d2 == Overlay(s.st[1].d, x, off) IN Out([s EXCEPT !.st[1].d = d2], "ok", 0, <<<<>>, d2>>)
                       ELSE ArrPanic(s)
Iota(w) == [j \in 1..w |-> j]
ArrLane(s, op, i) == IF ~Fits(s, i, 1, s.w) THEN ArrPanic(s)
                     ELSE Out(s, "ok", 0, <<IF op = "ext" THEN <<i + 1>> ELSE Overlay(Iota(s.w), <<96>>, i), s.st[1].d>>)
ArrResults(s, op, a) ==
    CASE op \in {"load", "uload"} -> ArrLoad(s, a[1], s.w)
      [] op \in {"loads", "uloads"} -> ArrLoad(s, a[1], 1)
      [] op \in {"store", "ustore"} -> ArrStore(s, a[1], StoreVal(s.w))
      [] op \in {"stores", "ustores"} -> ArrStore(s, a[1], <<96>>)
      [] op = "q" -> Out(s, "ok", 0, <<<<s.len, s.len \div s.w, s.w, s.sz>>>>)
      [] op \in {"ext", "uext"} -> ArrLane(s, "ext", a[1])
      [] op \in {"rep", "urep"} -> ArrLane(s, "rep", a[1])

\* Calls whose outcome the specification says nothing about.
Unspecified(s, op, a) ==
    \/ s.dead
    \/ op = "end" /\ Rem(s) > s.w
    \/ op = "adv" /\ a[1] > Rem(s)
    \/ op = "unpack" /\ s.fns # <<>>
    \/ op \in {"uload", "ustore"} /\ ~Fits(s, a[1], s.w, s.len)
    \/ op \in {"uloads", "ustores"} /\ ~Fits(s, a[1], 1, s.len)
    \/ op \in {"uext", "urep"} /\ ~Fits(s, a[1], 1, s.w)

Results(s, op, a) ==
    IF s.k = "arr" THEN ArrResults(s, op, a) ELSE
    CASE op = "next" -> Next_(s)
      [] op = "end" -> End_(s)
      [] op = "adv" -> Out([s EXCEPT !.pos = @ + a[1], !.held = FALSE], "ok", 0, <<>>)
      [] op = "fin" -> Out(Exhausted(s), "ok", 0, <<>>)
      [] op = "q" -> Query(s)
      [] op = "dflt" -> Out(s, "ok", 0, IF s.fns = <<>> THEN [i \in 1..Len(s.st) |-> s.st[i].f] ELSE <<Anys(WOut(s))>>)
      [] op = "reduce" -> Out(Exhausted(s), "ok", 7 + Rem(s) \div s.w + (IF Rem(s) % s.w = 0 THEN 0 ELSE 1), Logged(s, TRUE))
      [] op = "doeach" -> Out(Exhausted(s), "ok", 0, Logged(s, FALSE))
      [] op = "collect" -> Out(Exhausted(s), "ok", Ticks(s), <<Images(s)>>)
      [] op = "collect_all" -> Out(Exhausted(s), "ok", Ticks(s), <<AllLanes(s)>>)
      [] op = "fill" -> Fill(s, Images(s), a[1])
      [] op = "fill_all" -> Fill(s, AllLanes(s), a[1])
      [] op = "unroll" -> Unroll(s, a[1], a[2])
      [] op = "unpack" -> LET k == MinOf(a[1], Rem(s))
                          IN Out([s EXCEPT !.pos = @ + k], "ok", 0, <<SubSeq(s.st[1].d, s.pos + 1, s.pos + k)>>)
      [] op = "unpackall" -> Out([Exhausted(s) EXCEPT !.dead = TRUE], "ok", 0, <<SubSeq(s.st[1].d, s.pos + 1, s.len)>>)
      [] op = "load" -> Load(s, a[1], s.w)
      [] op = "loads" -> Load(s, a[1], 1)
      [] op = "foreach" -> ForEach(s, a[1])

\* the state after a call, whatever was observed
After(s, op, a) == IF s.k # "arr" /\ op \in {"collect", "collect_all", "reduce", "doeach"} THEN Exhausted(s)
                   ELSE IF s.k # "arr" /\ op \in {"q", "dflt"} THEN s
                   ELSE (CHOOSE r \in Results(s, op, a) : TRUE).s
=============================================================================
