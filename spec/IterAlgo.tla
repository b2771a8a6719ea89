------------------------------- MODULE IterAlgo -------------------------------
(***************************************************************************)
(* The algorithms of faster's iterators, next to the behaviour Iter asks   *)
(* of them: how a partial vector is read, how collecting and filling       *)
(* overlap their stores, how strides address their collection, what a      *)
(* stride-zip holds back.  Each object of IterGen is accompanied by one    *)
(* made of the fields the implementation has; every call it offers must    *)
(* end in a step of Iter with the same observation, and may touch nothing  *)
(* outside the memory it owns.                                             *)
(*                                                                         *)
(* An access out of bounds leaves BAD in what is observed, memory which    *)
(* was never written HOLE.                                                 *)
(***************************************************************************)
EXTENDS IterGen

BAD == -424242
HOLE == -434343

(***************************************************************************)
(* Objects                                                                 *)
(***************************************************************************)
Slice(d, f, pos) == [k |-> "slice", d |-> d, f |-> f, pos |-> pos]
RECURSIVE MkPath(_, _, _)
\* positions of strides count elements of what they stride over, from `base`
MkPath(d, f, p) ==
    IF p = <<>> THEN Slice(d, f, 0)
    ELSE LET q == p[Len(p)]
         IN [k |-> "stride", in |-> MkPath(d, f, SubSeq(p, 1, Len(p) - 1)), f |-> f, raw |-> q[2], base |-> q[2], stride |-> q[1]]

RECURSIVE SLen(_), LoadS(_, _)
SLen(o) == CASE o.k = "slice" -> Len(o.d) [] o.k = "stride" -> SLen(o.in) \div o.stride [] o.k = "adapt" -> o.pos + Len(o.rest)
             [] o.k = "zip" -> SLen(o.its[1]) [] o.k = "szip" -> (SLen(o.in) - o.base) \div 2
\* an element, from 0; the collection under a stride is the only thing which is checked
LoadS(o, i) == IF o.k = "slice" THEN (IF i >= 0 /\ i < Len(o.d) THEN o.d[i + 1] ELSE BAD) ELSE LoadS(o.in, o.base + i * o.stride)
LoadV(o, i, w) == [j \in 1..w |-> LoadS(o, i + j - 1)]
Held(o, w) == IF o.peek = <<>> THEN 0 ELSE w - o.skipped
RECURSIVE SPos(_, _)
SPos(o, w) == CASE o.k = "slice" -> o.pos [] o.k = "stride" -> (o.raw - o.base) \div o.stride [] o.k = "adapt" -> o.pos
                [] o.k = "zip" -> SPos(o.its[1], w) [] o.k = "szip" -> (SPos(o.in, w) - Held(o, w) - o.base) \div 2
\* ExactSizeIterator::len
RECURSIVE VLen(_, _), VecLen(_, _)
VecLen(o, w) == SLen(o) \div w
VLen(o, w) == CASE o.k = "slice" -> Len(o.d) \div w [] o.k = "stride" -> VecLen(o.in, w) \div o.stride [] o.k = "adapt" -> SLen(o) \div w
                [] o.k = "zip" -> VLen(o.its[1], w) [] o.k = "szip" -> VLen(o.in, w) \div 2

RECURSIVE Advance(_, _, _)
Advance(o, n, w) ==
    CASE o.k = "slice" -> [o EXCEPT !.pos = @ + n]
      [] o.k = "stride" -> [o EXCEPT !.raw = @ + n * o.stride]
      [] o.k = "adapt" -> [o EXCEPT !.pos = @ + n, !.rest = SubSeq(@, n + 1, Len(@))]
      [] o.k = "zip" -> [o EXCEPT !.its[1] = Advance(@, n, w)]
      [] o.k = "szip" -> IF 2 * n < Held(o, w) THEN [o EXCEPT !.skipped = @ + 2 * n]
                         ELSE [o EXCEPT !.peek = <<>>, !.skipped = 0, !.in = Advance(@, 2 * n - Held(o, w), w)]
Finalize(o, w) == Advance(o, SLen(o) - SPos(o, w), w)

Build(b) ==
    LET One(x) == Advance(MkPath(x.d, x.f, x.p), x.pre, b.w)
    IN CASE b.k \in {"iter", "stride", "arr"} -> One(b.st[1])
         [] b.k = "adapt" -> [k |-> "adapt", rest |-> b.st[1].d, pos |-> 0, f |-> b.st[1].f, scratch |-> [j \in 1..b.w |-> 0]]
         [] b.k \in {"zip", "zipstride"} -> [k |-> "zip", its |-> [i \in 1..Len(b.st) |-> One(b.st[i])]]
         [] b.k = "szip" -> [k |-> "szip", in |-> One(b.st[1]), base |-> b.st[1].pre, peek |-> <<>>, skipped |-> 0]

(***************************************************************************)
(* Vectors: next is [o |-> object, v |-> <<>> or a tuple of vectors], and  *)
(* end has the number of padding lanes n besides                           *)
(***************************************************************************)
Merge(a, b, n) == [j \in 1..Len(a) |-> IF j <= n THEN a[j] ELSE b[j]]
\* the last vector of something with random access, `pos` being where it starts
EndAt(o, pos, w) ==
    LET l == SLen(o)
        n == w - (l - pos)
    IN [n |-> n,
        v |-> IF w < l THEN Merge(o.f, LoadV(o, l - w, w), n)
              ELSE [j \in 1..w |-> LET i == j - 1 - (w - l) IN IF i >= pos /\ i < l THEN LoadS(o, i) ELSE o.f[j]]]
\* the elements of two vectors, right-aligned, pair by pair
Pairs(first, skipped, rest, n, w) ==
    LET inFirst == IF first = <<>> THEN 0 ELSE w - skipped
        total == inFirst + w - n
        e == w - (total + 1) \div 2
        Item(i) == IF i < inFirst THEN first[skipped + i + 1] ELSE rest[n + i - inFirst + 1]
        Half(k) == [j \in 1..w |-> LET i == 2 * (j - 1 - e) + k IN IF i >= 0 /\ i < total THEN Item(i) ELSE 0]
    IN [total |-> total, n |-> e, v |-> <<Half(0), Half(1)>>]

RECURSIVE RawNext(_, _), RawEnd(_, _)
RawNext(o, w) ==
    CASE o.k \in {"slice", "stride"} ->
           IF SPos(o, w) + w <= SLen(o) THEN [o |-> Advance(o, w, w), v |-> <<LoadV(o, SPos(o, w), w)>>] ELSE [o |-> o, v |-> <<>>]
      [] o.k = "adapt" ->
           IF w <= Len(o.rest) THEN LET x == SubSeq(o.rest, 1, w) IN [o |-> [o EXCEPT !.rest = SubSeq(@, w + 1, Len(@)), !.pos = @ + w, !.scratch = x], v |-> <<x>>]
           ELSE [o |-> o, v |-> <<>>]
      [] o.k = "zip" ->
           LET p == SPos(o.its[1], w)
               r == RawNext(o.its[1], w)
           IN IF r.v = <<>> THEN [o |-> o, v |-> <<>>]
              ELSE [o |-> [o EXCEPT !.its[1] = r.o], v |-> [i \in 1..Len(o.its) |-> IF i = 1 THEN r.v[1] ELSE LoadV(o.its[i], p, w)]]
      [] o.k = "szip" ->
           LET a == RawNext(o.in, w)
               b == RawNext(a.o, w)
           IN IF a.v = <<>> THEN [o |-> [o EXCEPT !.in = a.o], v |-> <<>>]
              ELSE IF b.v = <<>> THEN [o |-> [o EXCEPT !.in = b.o, !.peek = a.v[1]], v |-> <<>>]
              ELSE LET x == a.v[1] \o b.v[1]
                   IN [o |-> [o EXCEPT !.in = b.o], v |-> <<[j \in 1..w |-> x[2 * j - 1]], [j \in 1..w |-> x[2 * j]]>>]
RawEnd(o, w) ==
    CASE o.k \in {"slice", "stride"} ->
           IF SPos(o, w) < SLen(o) THEN LET e == EndAt(o, SPos(o, w), w) IN [o |-> Finalize(o, w), v |-> <<e.v>>, n |-> e.n]
           ELSE [o |-> o, v |-> <<>>, n |-> 0]
      [] o.k = "adapt" ->
           IF Len(o.rest) = 0 THEN [o |-> o, v |-> <<>>, n |-> 0]
           ELSE LET e == w - Len(o.rest)
                    x == [j \in 1..w |-> IF j <= e THEN o.f[j] ELSE o.rest[j - e]]
                IN [o |-> [o EXCEPT !.rest = <<>>, !.pos = @ + w - e, !.scratch = x], v |-> <<x>>, n |-> e]
      [] o.k = "zip" ->
           LET p == SPos(o.its[1], w)
               r == RawEnd(o.its[1], w)
           IN IF r.v = <<>> THEN [o |-> o, v |-> <<>>, n |-> 0]
              ELSE [o |-> [o EXCEPT !.its[1] = r.o], n |-> r.n, v |-> [i \in 1..Len(o.its) |-> IF i = 1 THEN r.v[1] ELSE EndAt(o.its[i], p, w).v]]
      [] o.k = "szip" ->
           LET a == IF o.peek # <<>> THEN [o |-> o.in, v |-> <<o.peek>>] ELSE RawNext(o.in, w)
               b == RawEnd(a.o, w)
               x == Pairs(IF a.v = <<>> THEN <<>> ELSE a.v[1], o.skipped, IF b.v = <<>> THEN [j \in 1..w |-> 0] ELSE b.v[1], IF b.v = <<>> THEN w ELSE b.n, w)
               left == [o EXCEPT !.in = b.o, !.peek = <<>>, !.skipped = 0]
           IN IF x.total = 0 THEN [o |-> left, v |-> <<>>, n |-> 0] ELSE [o |-> left, v |-> x.v, n |-> x.n]

\* under the maps of t
ONext(t, o) == LET r == RawNext(o, t.w) IN IF r.v = <<>> THEN r ELSE [r EXCEPT !.v = Deliver(t, @)]
OEnd(t, o) == LET r == RawEnd(o, t.w) IN IF r.v = <<>> THEN r ELSE [r EXCEPT !.v = Deliver(t, @), !.n = PadOut(t, @)]

(***************************************************************************)
(* Consumers                                                               *)
(***************************************************************************)
InBuf(buf, off, n) == off >= 0 /\ off + n <= Len(buf)
\* a store outside of the buffer: <<BAD>>
Store(buf, off, v) == IF buf = <<BAD>> \/ ~InBuf(buf, off, Len(v)) THEN <<BAD>> ELSE [i \in 1..Len(buf) |-> IF i > off /\ i <= off + Len(v) THEN v[i - off] ELSE buf[i]]
Tail_(v, n) == SubSeq(v, n + 1, Len(v))
\* store every vector, then the partial one, over the padding of which the last vector is stored again
RECURSIVE Pour(_, _, _, _, _, _)
Pour(t, o, buf, off, prev, all) ==
    LET r == ONext(t, o)
        wo == WOut(t)
        e == OEnd(t, r.o)
    IN IF r.v # <<>> THEN Pour(t, r.o, Store(buf, off, r.v[1]), off + wo, r.v[1], all)
       ELSE IF e.v = <<>> THEN [o |-> e.o, buf |-> buf, n |-> off]
       ELSE IF all THEN [o |-> e.o, buf |-> Store(buf, off, e.v[1]), n |-> off + wo]
       ELSE IF off > 0 THEN [o |-> e.o, buf |-> Store(Store(buf, off - e.n, e.v[1]), off - wo, prev), n |-> wo + off - e.n]
       ELSE [o |-> e.o, buf |-> Store(buf, off, Tail_(e.v[1], e.n)), n |-> wo + off - e.n]
CollectBy(t, o, all) ==
    LET r == Pour(t, o, [i \in 1..((VLen(o, t.w) + 1) * WOut(t)) |-> HOLE], 0, <<>>, all)
    IN [o |-> r.o, r |-> "ok", n |-> Ticks(t), v |-> <<IF r.buf = <<BAD>> THEN r.buf ELSE SubSeq(r.buf, 1, r.n)>>]
FillBy(t, o, m, all) ==
    LET r == Pour(t, o, NormBuf(t, Buffer(m)), 0, <<>>, all)
    IN IF r.buf = <<BAD>> THEN [o |-> r.o, r |-> "panic", n |-> 0, v |-> <<>>] ELSE [o |-> r.o, r |-> "ok", n |-> Ticks(t), v |-> <<r.buf>>]

RECURSIVE Passes(_, _, _)
Passes(t, o, log) ==
    LET r == ONext(t, o)
        e == OEnd(t, r.o)
    IN IF r.v # <<>> THEN Passes(t, r.o, Append(log, Flat(r.v)))
       ELSE [o |-> e.o, log |-> IF e.v = <<>> THEN log ELSE Append(log, Flat(e.v))]
\* in place: each vector is stored where it was read, the partial one in front of the last but for its padding
RECURSIVE InPlace(_, _, _, _)
InPlace(t, o, nm, st) ==
    LET w == t.w
        Img(v) == LaneMap(t, nm, v)
        r == RawNext(o, w)
        off == SPos(r.o, w)
        e == RawEnd(r.o, w)
        p == Img(e.v[1])
        E(x) == [x EXCEPT !.n = @ + 1]
    IN IF r.v # <<>> THEN LET q == Img(r.v[1]) IN InPlace(t, [r.o EXCEPT !.d = Store(@, off - w, q)], nm, [n |-> st.n + 1, last |-> q])
       ELSE IF e.v = <<>> THEN [o |-> e.o, n |-> st.n]
       ELSE IF st.last # <<>> THEN [o |-> [e.o EXCEPT !.d = Store(Store(@, off - e.n, p), off - w, st.last)], n |-> st.n + 1]
       ELSE [o |-> [e.o EXCEPT !.d = Store(@, off, Tail_(p, e.n))], n |-> st.n + 1]

RECURSIVE Take(_, _, _)
\* up to k vectors
Take(t, o, k) == IF k = 0 THEN [o |-> o, v |-> <<>>]
                 ELSE LET r == ONext(t, o) IN IF r.v = <<>> THEN [o |-> r.o, v |-> <<>>] ELSE LET x == Take(t, r.o, k - 1) IN [o |-> x.o, v |-> r.v[1] \o x.v]
\* up to k elements
Scalars(o, k, w) == LET p == SPos(o, w)
                        m == MinOf(k, SLen(o) - p)
                    IN [o |-> Advance(o, m, w), v |-> [i \in 1..m |-> LoadS(o, p + i - 1)]]
RECURSIVE Chunks(_, _, _, _, _)
Chunks(t, o, amt, k, acc) == IF k = 0 THEN [o |-> o, v |-> acc] ELSE LET x == Take(t, o, amt) IN Chunks(t, x.o, amt, k - 1, Append(acc, x.v))

(***************************************************************************)
(* Calls                                                                   *)
(***************************************************************************)
Conc(t, o, op, a) ==
    LET R(o2, r, n, v) == [o |-> o2, r |-> r, n |-> n, v |-> v]
        w == t.w
        StLoad(n) ==   \* a stride checks the last element it loads
            IF n < 1 \/ a[1] < 0 \/ a[1] > SLen(IF o.k = "stride" THEN o.in ELSE o) THEN R(o, "panic", 0, <<>>)
            ELSE IF (IF o.k = "stride" THEN o.base + o.stride * (a[1] + n - 1) < SLen(o.in) ELSE a[1] + n <= SLen(o)) THEN R(o, "ok", 0, <<LoadV(o, a[1], n)>>)
            ELSE R(o, "panic", 0, <<>>)
    IN CASE op = "next" -> LET r == ONext(t, o) IN R(r.o, IF r.v = <<>> THEN "none" ELSE "some", 0, r.v)
         [] op = "end" -> LET r == OEnd(t, o) IN R(r.o, IF r.v = <<>> THEN "none" ELSE "some", r.n, r.v)
         [] op = "adv" -> R(Advance(o, a[1], w), "ok", 0, <<>>)
         [] op = "fin" -> R(Finalize(o, w), "ok", 0, <<>>)
         [] op = "q" -> LET p == SPos(o, w) IN R(o, "ok", 0, <<<<p, SLen(o), p \div w, SLen(o) \div w, WOut(t), SzOut(t), VLen(o, w)>>>>)
         [] op = "collect" -> CollectBy(t, o, FALSE)
         [] op = "collect_all" -> CollectBy(t, o, TRUE)
         [] op = "fill" -> FillBy(t, o, a[1], FALSE)
         [] op = "fill_all" -> FillBy(t, o, a[1], TRUE)
         [] op = "reduce" -> LET x == Passes(t, o, <<>>) IN R(x.o, "ok", 7 + Len(x.log), [i \in 1..Len(x.log) |-> <<6 + i>> \o x.log[i]])
         [] op = "doeach" -> LET x == Passes(t, o, <<>>) IN R(x.o, "ok", 0, x.log)
         [] op = "unroll" /\ a[1] > 8 -> R(o, "panic", 0, <<>>)
         [] op = "unroll" -> LET x == Chunks(t, o, a[1], a[2], <<>>)
                             IN R(x.o, "ok", IF a[1] = 0 THEN 0 ELSE (SPos(x.o, w) \div w) \div a[1], x.v)
         [] op = "unpack" -> LET x == Scalars(o, a[1], w) IN R(x.o, "ok", 0, <<x.v>>)
         [] op = "unpackall" -> LET x == Scalars(o, SLen(o), w) IN R(x.o, "ok", 0, <<x.v>>)
         [] op = "foreach" -> LET x == InPlace(t, o, CASE a[1] = 0 -> "inc" [] a[1] = 1 -> "lane" [] a[1] = 2 -> "dbl", [n |-> 0, last |-> <<>>])
                              IN R(x.o, "ok", x.n, <<x.o.d>>)
         [] op = "load" -> StLoad(w)
         [] op = "loads" -> StLoad(1)
         [] op = "dflt" -> R(o, "ok", 0, [i \in 1..Len(t.st) |-> IF o.k = "szip" THEN [j \in 1..w |-> 0] ELSE IF o.k = "zip" THEN o.its[i].f ELSE o.f])

VARIABLE obj    \* the implementation's object
avars == <<cfg, cur, prog, last, steps, seen, obj>>
AInit == Init /\ obj = IF cur = <<>> THEN <<>> ELSE Build(cfg.b)
ADo(c) == Do(c) /\ obj' = Conc(cur, obj, c.op, c.a).o
ANext == cur # <<>> /\ steps < Depth /\ ~cur.dead /\ \E c \in Calls(cur, MoveOps) : Allowed(cur, c) /\ ADo(c)
ASpec == AInit /\ [][ANext]_avars
\* objects may differ where the specification does not: all of them
AView == <<View, obj>>

SameSeq(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : x[i] = ANY \/ x[i] = y[i]
SameVecs(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : SameSeq(x[i], y[i])
\* the position after a panic is nobody's business
Step(c) ==
    LET x == Conc(cur, obj, c.op, c.a)
    IN \E r \in Results(cur, c.op, c.a) :
         /\ r.o.r = x.r /\ r.o.n = x.n /\ SameVecs(r.o.v, x.v)
         /\ x.r # "panic" => SPos(x.o, cur.w) = r.s.pos \/ r.s.dead
Refines == (cur # <<>> /\ cur.k # "arr" /\ ~cur.dead) =>
    /\ SPos(obj, cur.w) = cur.pos /\ SLen(obj) = cur.len
    /\ \A c \in Calls(cur, MoveOps \cup FocusOps) : Allowed(cur, c) => (Step(c) \/ (PrintT(<<"differs", cfg.h, prog, c, Conc(cur, obj, c.op, c.a), {r.o : r \in Results(cur, c.op, c.a)}>>) /\ FALSE))
=============================================================================
