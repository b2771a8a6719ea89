------------------------------- MODULE IterGen -------------------------------
(***************************************************************************)
(* The state space of Iter for one property and one vector width:          *)
(*  - the design properties below are invariants of it, and                *)
(*  - every transition of it becomes a test program, printed as a line     *)
(*    "P|head|call|call|..." to be replayed on the implementation.         *)
(* Breadth first with the VIEW below a program per transition (of the      *)
(* abstract state: configuration, position, previous call); with           *)
(* -simulate, random walks of depth WALK.                                  *)
(*                                                                         *)
(* Environment: PLAN (property), W (lanes), TIER, DEPTH, WALK.             *)
(***************************************************************************)
EXTENDS Iter, IOUtils

Plan == IOEnv.PLAN
Thorough == IOEnv.TIER = "thorough"
W == atoi(IOEnv.W)
Depth == atoi(IOEnv.DEPTH)
Walk == atoi(IOEnv.WALK)
\* bytes per lane: the width is that of a 128 or 256 bit register
Sizes == {sz \in {1, 2, 4, 8} : sz * W \in {16, 32}}

Str(x) == ToString(x)
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)

(***************************************************************************)
(* Configurations: [h |-> header, b |-> argument of Start]                 *)
(***************************************************************************)
Iota0(n) == [i \in 1..n |-> ((i - 1) % 95) + 1]
Dflt == [j \in 1..W |-> 127 - ((j - 1) % 32)]
St(n, p, pre) == [d |-> Iota0(n), f |-> Dflt, p |-> p, pre |-> pre]
Cfg(k, h, fns, st) == [h |-> h, b |-> [k |-> k, w |-> W, sz |-> 4, sg |-> 1, fns |-> fns, st |-> st, made |-> 1]]

Bound(S, hi) == {n \in S : n >= 0 /\ n <= hi}
Lens == IF W <= 4 \/ Thorough THEN 0..(IF W <= 8 THEN 3 * W + 1 ELSE 2 * W + 3) \cup Bound({3 * W - 1, 3 * W, 3 * W + 1}, 95)
        ELSE Bound({0, 1, 2, 3, W - 1, W, W + 1, W + W \div 2, 2 * W - 1, 2 * W, 2 * W + 1, 3 * W - 2}, 95)
FewLens == Bound({0, 1, W - 1, W, W + 1, 2 * W - 1, 2 * W, 2 * W + 1} \cup (IF Thorough THEN {2, 3 * W - 1, 3 * W} ELSE {}), 95)

\* many vectors: more than any unrolled loop takes at once
LongLens == {7 * W, 9 * W - 1, 17 * W + 3} \cup (IF Thorough THEN {8 * W, 8 * W + 1, 16 * W, 33 * W + W \div 2, 256, 257} ELSE {})
IsLong(s) == s.len > 5 * W + 1

F(f) == [f |-> f, x |-> 0]
\* lane-wise maps
Maps == {[h |-> "-", f |-> <<>>], [h |-> "inc", f |-> <<F("inc")>>], [h |-> "lane", f |-> <<F("lane")>>], [h |-> "lane,dbl", f |-> <<F("lane"), F("dbl")>>]}
NoMap == {m \in Maps : m.f = <<>>}
SomeMaps == {m \in Maps : m.f # <<>>}
\* maps which reinterpret a vector of W lanes of sz bytes as lanes of y bytes
ToMaps(sz) ==
    LET names == [x \in {1, 2, 4} |-> CASE x = 1 -> "u8" [] x = 2 -> "u16" [] x = 4 -> "u32"]
        Y == {y \in {1, 2, 4} : y # sz}
    IN {[h |-> "to:" \o names[y], f |-> <<[f |-> "to", x |-> y]>>] : y \in Y}
       \cup {[h |-> "lane,to:" \o names[y], f |-> <<F("lane"), [f |-> "to", x |-> y]>>] : y \in Y}

IterCfgs(lens, maps, back) ==
    {Cfg("iter", "iter %T " \o back \o " " \o Str(n) \o " " \o m.h, m.f, <<St(n, <<>>, 0)>>) : n \in lens, m \in maps}
\* only whole output lanes
ToCfgs(lens) == UNION {
    {[Cfg("iter", "iter %" \o Str(sz) \o " %B " \o Str(n) \o " " \o m.h, m.f, <<St(n, <<>>, 0)>>) EXCEPT !.b.sz = sz, !.b.sg = 0]
       : n \in {q \in lens : (q * sz) % m.f[Len(m.f)].x = 0}}
    : <<sz, m>> \in UNION {{<<sz, m>> : m \in ToMaps(sz)} : sz \in Sizes}}
AdaptCfgs(lens, maps) == {Cfg("adapt", "adapt %T " \o Str(n) \o " " \o m.h, m.f, <<St(n, <<>>, 0)>>) : n \in lens, m \in maps}
ArrCfgs(lens) == {Cfg("arr", "arr %T %C " \o Str(n), <<>>, <<St(n, <<>>, 0)>>) : n \in lens}

\* strides: constructor, count
Ctors == {<<"two", 2>>, <<"three", 3>>, <<"four", 4>>, <<"nine", 9>>, <<"dyn1", 1>>, <<"dyn5", 5>>, <<"into3", 3>>, <<"into2", 2>>}
           \cup (IF Thorough THEN {<<"dyn2", 2>>, <<"dyn7", 7>>, <<"into6", 6>>, <<"dyn13", 13>>} ELSE {})
Groups == IF W <= 4 /\ Thorough THEN 0..(3 * W) ELSE {0, 1, W - 1, W, W + 1, 2 * W, 2 * W + 1}
SomeK(s) == IF Thorough THEN 0..(s - 1) ELSE {0, s \div 2, s - 1}
StrideCfgs(ctors, groups, maps) == UNION {
    {Cfg("stride", "stride %T %S " \o Str(g * c[2] + x) \o " " \o c[1] \o "." \o Str(k) \o " " \o m.h, m.f, <<St(g * c[2] + x, <<<<c[2], k>>>>, 0)>>)
       : g \in groups, x \in {0, c[2] \div 2, c[2] - 1}, k \in SomeK(c[2]), m \in maps}
    : c \in ctors}
MisStrides == {Cfg("misstride", "stride %T ref " \o Str(4 * W) \o " " \o c \o ".0 -", <<>>, <<>>) : c \in {"dyn3x2", "dyn3x4", "dyn1x0", "into2x1", "into2x3", "dyn9x8"}}
NestedCfgs(groups) == UNION {
    {Cfg("stride", "stride %T ref " \o Str(g * c[2] * e[2] + x) \o " " \o c[1] \o "." \o Str(k) \o "/" \o e[1] \o "." \o Str(j) \o " -", <<>>,
         <<St(g * c[2] * e[2] + x, <<<<c[2], k>>, <<e[2], j>>>>, 0)>>)
       : g \in groups, x \in {0, 1, c[2] + 1}, k \in {0, c[2] - 1}, j \in {0, e[2] - 1}}
    : <<c, e>> \in {<<<<"two", 2>>, <<"three", 3>>>>, <<<<"dyn3", 3>>, <<"two", 2>>>>}}

\* zips of n iterators over slices, all advanced by pre
ZipMaps == {[h |-> "-", f |-> <<>>], [h |-> "add", f |-> <<F("add")>>], [h |-> "add,lane", f |-> <<F("add"), F("lane")>>]}
PickMaps(n) == {[h |-> "pick:" \o Str(k), f |-> <<[f |-> "pick", x |-> k]>>] : k \in IF Thorough THEN 0..(n - 1) ELSE {0, n \div 2, n - 1}}
LensStr(ls) == Join([i \in 1..Len(ls) |-> Str(ls[i])], ",")
ZipCfg(ls, pre, m) == Cfg("zip", "zip %Z " \o Str(Len(ls)) \o " " \o LensStr(ls) \o " " \o Str(pre) \o " " \o m.h, m.f, [i \in 1..Len(ls) |-> St(ls[i], <<>>, pre)])
ZipPres(l) == {p \in {0, 1, W} : p <= l}
ZipCfgs(arities, lens, maps) ==
    UNION {{ZipCfg([i \in 1..n |-> l], p, m) : p \in ZipPres(l), m \in maps \cup (IF maps = ZipMaps THEN PickMaps(n) ELSE {})} : n \in arities, l \in lens}
\* one iterator of another length, at each place
OddZips(arities, lens) ==
    UNION {{ZipCfg([i \in 1..n |-> IF i = j THEN l + x ELSE l], 0, [h |-> "-", f |-> <<>>]) : j \in 1..n, x \in {1, W - 1, W}} : n \in arities, l \in lens}
\* the same number of elements in vectors of another width
MixedZips(lens) == UNION {
    {Cfg("zip", "zip %M 2 " \o LensStr(<<l, m>>) \o " 0 -", <<>>, <<St(l, <<>>, 0), [St(m, <<>>, 0) EXCEPT !.f = <<0>>]>>)
       : m \in lens \cup {4 * l, l \div 4}} : l \in lens}
\* iterators of different kinds: r, v and m over a slice, an owned vector and a mutable slice, s and t the second of two
\* and the first of three strides; the last one longer by x elements
MixPath(c) == IF c = "s" THEN <<<<2, 1>>>> ELSE IF c = "t" THEN <<<<3, 0>>>> ELSE <<>>
MixLen(c, l) == IF c = "s" THEN 2 * l + 1 ELSE IF c = "t" THEN 3 * l + 2 ELSE l
Shapes == {<<"r", "s">>, <<"s", "r">>, <<"m", "t", "v">>}
MixCfgs(lens, xs, maps) == UNION {
    {Cfg("zip", "zipmix %X " \o sh[1] \o sh[2] \o (IF Len(sh) = 3 THEN sh[3] ELSE "") \o " " \o Str(l) \o " " \o Str(x) \o " " \o Str(p) \o " " \o m.h, m.f,
         [i \in 1..Len(sh) |-> LET y == IF i = Len(sh) THEN l + x ELSE l IN St(MixLen(sh[i], y), MixPath(sh[i]), p)])
       : p \in ZipPres(l), x \in xs, m \in maps} : l \in lens, sh \in Shapes}
ZipStrideCfgs(groups, maps) == UNION {
    {Cfg("zipstride", "zipstride %T " \o c[1] \o " " \o Str(g * c[2] + x) \o " " \o m.h, m.f, [i \in 1..c[2] |-> St(g * c[2] + x, <<<<c[2], i - 1>>>>, 0)])
       : g \in groups, x \in {0, c[2] - 1}, m \in maps}
    : c \in {<<"two", 2>>, <<"three", 3>>, <<"four", 4>>, <<"nine", 9>>}}
SzipCfgs(lens, maps) ==
    {Cfg("szip", "szip %D %B " \o Str(l + p) \o " " \o Str(p) \o " " \o m.h, m.f, <<St(l + p, <<>>, p)>>)
       : l \in lens, p \in {0, 1, 2, W}, m \in maps}
\* stride-zips of mapped iterators, of strides and of packed scalar iterators
SzipOther(lens) == UNION {
    {Cfg("szip", "szip %D " \o k \o " " \o Str(l + p) \o " " \o Str(p) \o " -", <<>>,
         <<IF k = "stride" THEN St(2 * (l + p) + 1, <<<<2, 1>>>>, p) ELSE St(l + p, <<>>, p)>>)
       : l \in lens, p \in {0, 1, W}} : k \in {"map", "stride", "adapt"}}
EvenLens == {l \in (IF W <= 8 \/ Thorough THEN 0..MinOf(5 * W, 94) ELSE 0..3 \cup UNION {{q * W - 2, q * W, q * W + 2} : q \in 1..4}) : l % 2 = 0 /\ l <= 94}
FewEven == {l \in EvenLens : l \in {0, 2, W - 2, W, W + 2, 2 * W, 2 * W + 2, 3 * W, 4 * W - 2, 4 * W}}

ShortConfigs ==
    CASE Plan = "C01" -> IterCfgs(Lens, NoMap, "%B")
      [] Plan = "C02" -> IterCfgs(Lens, Maps, "%B") \cup ToCfgs(Lens) \cup StrideCfgs({<<"two", 2>>, <<"dyn3", 3>>}, {1, W, W + 1, 2 * W + 1}, {m \in Maps : Len(m.f) <= 1})
                           \cup ZipCfgs({2, 3}, FewLens, {m \in ZipMaps : m.f # <<>>})
      [] Plan = "C03" -> IterCfgs(IF Thorough THEN Lens ELSE FewLens, Maps, "%B") \cup ToCfgs(FewLens) \cup ZipCfgs({2}, FewLens, {m \in ZipMaps : m.f # <<>>})
      [] Plan = "C04" -> IterCfgs(IF Thorough THEN Lens ELSE FewLens, Maps, "%B") \cup ToCfgs(FewLens) \cup ZipCfgs({2}, FewLens, {m \in ZipMaps : m.f # <<>>})
      [] Plan = "C05" -> IterCfgs(Lens, NoMap, "mut")
      [] Plan = "C06" -> IterCfgs(FewLens \cup Lens, NoMap \cup {m \in Maps : m.h = "lane"}, "%B")
                           \cup StrideCfgs({<<"two", 2>>, <<"dyn3", 3>>}, {0, 1, W, W + 1, 2 * W + 1}, NoMap)
                           \cup ZipCfgs({2, 3}, FewLens, NoMap \cup {m \in ZipMaps : m.h = "add"}) \cup SzipCfgs(FewEven, NoMap)
      [] Plan = "C07" -> ZipCfgs(2..13, FewLens, ZipMaps) \cup OddZips(2..13, Bound({0, 1, W - 1, W + 1}, 90)) \cup MixedZips({0, 1, 3, W, 2 * W})
                           \cup ZipStrideCfgs({0, 1, W, W + 1, 2 * W + 1}, {m \in ZipMaps : m.f # <<>> \/ m.h = "-"})
                           \cup MixCfgs(FewLens, {0}, {m \in ZipMaps : m.h \in {"-", "add"}}) \cup MixCfgs({0, W - 1, W}, {1, W}, NoMap)
      [] Plan = "C08" -> StrideCfgs(Ctors, Groups, NoMap) \cup StrideCfgs({<<"two", 2>>, <<"three", 3>>}, {1, W, W + 1}, {m \in Maps : m.h = "lane"})
                           \cup MisStrides \cup NestedCfgs({0, 1, W, W + 1}) \cup ZipStrideCfgs({0, 1, W, W + 1}, NoMap)
      [] Plan = "C09" -> SzipCfgs(EvenLens, NoMap) \cup SzipOther(FewEven) \cup SzipCfgs(FewEven, {m \in ZipMaps : m.f # <<>>})
      [] Plan = "C10" -> IterCfgs(Lens, NoMap, "%B") \cup IterCfgs(FewLens, {m \in Maps : m.h = "inc"}, "%B") \cup ToCfgs(FewLens) \cup StrideCfgs({<<"two", 2>>, <<"dyn3", 3>>}, {0, 1, W, 2 * W + 1}, NoMap)
                           \cup ZipCfgs({2, 3}, FewLens, NoMap \cup {m \in ZipMaps : m.h = "add"}) \cup SzipCfgs(FewEven, NoMap)
                           \cup AdaptCfgs(FewLens, NoMap) \cup MixCfgs(FewLens, {0}, NoMap) \cup SzipOther(FewEven) \cup ArrCfgs(FewLens)
      [] Plan = "C11" -> IterCfgs(Lens, NoMap, "%B") \cup StrideCfgs({<<"two", 2>>, <<"dyn3", 3>>}, {0, 1, W, W + 1, 2 * W + 1}, NoMap)
                           \cup IterCfgs(FewLens, {m \in Maps : m.h = "lane"}, "%B") \cup ZipCfgs({2}, FewLens, {m \in ZipMaps : m.h = "add"}) \cup AdaptCfgs(FewLens, NoMap)
      [] Plan = "C12" -> ArrCfgs(Lens) \cup IterCfgs(FewLens, NoMap, "%B") \cup StrideCfgs({<<"two", 2>>, <<"dyn3", 3>>}, {0, 1, W, 2 * W}, NoMap)
      [] Plan = "C23" -> AdaptCfgs(Lens, NoMap) \cup AdaptCfgs(FewLens, SomeMaps)

OneMap == {m \in Maps : m.h = "lane"}
LongStrides(maps) == StrideCfgs({<<"two", 2>>, <<"dyn3", 3>>}, LongLens, maps)
LongConfigs ==
    CASE Plan \in {"C01", "C05", "C11"} -> IterCfgs(LongLens, NoMap, IF Plan = "C05" THEN "mut" ELSE "%B") \cup (IF Plan = "C11" THEN LongStrides(NoMap) ELSE {})
      [] Plan \in {"C02", "C03", "C04", "C06", "C10"} ->
            IterCfgs(LongLens, NoMap \cup OneMap, "%B") \cup LongStrides(NoMap)
            \cup ZipCfgs({2}, LongLens, (IF Plan \in {"C02", "C03", "C04"} THEN {} ELSE NoMap) \cup {m \in ZipMaps : m.h = "add"})
            \cup (IF Plan \in {"C06", "C10"} THEN SzipCfgs({14 * W, 18 * W - 2}, NoMap) ELSE {})
      [] Plan = "C07" -> ZipCfgs({2, 3, 5, 8, 12}, LongLens, {m \in ZipMaps : m.h \in {"-", "add"}}) \cup OddZips({2, 4}, {9 * W - 1}) \cup ZipStrideCfgs({9 * W - 1}, NoMap)
      [] Plan = "C08" -> LongStrides(NoMap) \cup StrideCfgs({<<"nine", 9>>}, {9 * W - 1}, NoMap) \cup NestedCfgs({7 * W, 9 * W - 1})
      [] Plan = "C09" -> SzipCfgs({14 * W, 18 * W - 2, 34 * W + 6}, NoMap \cup {m \in ZipMaps : m.h = "add"})
      [] Plan = "C12" -> ArrCfgs(LongLens) \cup IterCfgs(LongLens, NoMap, "%B") \cup LongStrides(NoMap)
      [] Plan = "C23" -> AdaptCfgs(LongLens, NoMap \cup OneMap)
Configs == ShortConfigs \cup LongConfigs

(***************************************************************************)
(* Calls                                                                   *)
(***************************************************************************)
\* calls on the way
MoveOps ==
    CASE Plan = "C01" -> {"next", "adv", "unpack", "end", "fin"}
      [] Plan \in {"C02", "C03", "C04", "C06"} -> {"next", "adv"}
      [] Plan = "C05" -> {"next", "adv", "unpack", "foreach"}
      [] Plan \in {"C07", "C08"} -> {"next", "adv"}
      [] Plan = "C09" -> {"next", "adv"}
      [] Plan = "C10" -> {"next", "adv", "end", "unroll", "fin", "reduce"}
      [] Plan = "C11" -> {"next", "adv", "unpack", "unroll", "end"}
      [] Plan = "C12" -> {"store", "stores"}
      [] Plan = "C23" -> {"next", "adv", "end", "fin"}
\* calls under test
FocusOps ==
    CASE Plan = "C01" -> {"next", "end", "unpack"}
      [] Plan = "C02" -> {"collect"}
      [] Plan = "C03" -> {"fill"}
      [] Plan = "C04" -> {"collect_all", "fill_all"}
      [] Plan = "C05" -> {"foreach"}
      [] Plan = "C06" -> {"reduce", "doeach"}
      [] Plan = "C07" -> {"next", "end", "dflt", "collect", "collect_all", "reduce"}
      [] Plan = "C08" -> {"next", "end", "dflt", "load", "loads", "collect", "unpack", "unpackall"}
      [] Plan = "C09" -> {"next", "end", "collect", "reduce"}
      [] Plan = "C10" -> {"q", "adv", "fin", "next", "end", "collect", "doeach", "fill"}
      [] Plan = "C11" -> {"unpack", "unpackall", "unroll"}
      [] Plan = "C12" -> {"load", "loads", "uload", "uloads", "store", "stores", "ustore", "ustores", "ext", "uext", "rep", "urep"}
      [] Plan = "C23" -> {"next", "end", "collect", "reduce"}

IsSrc(s) == s.k \in {"iter", "stride"} /\ s.fns = <<>>
IsVec(s) == ~Zipped(s) \/ s.fns # <<>>      \* delivers single vectors
Supports(s, op) ==
    IF s.k = "arr" THEN op \in {"q", "load", "loads", "uload", "uloads", "store", "stores", "ustore", "ustores", "ext", "uext", "rep", "urep"}
    ELSE CASE op \in {"next", "end", "adv", "fin", "q", "reduce", "doeach"} -> TRUE
           [] op = "dflt" -> s.fns = <<>>
           [] op \in {"collect", "collect_all", "fill", "fill_all", "unroll"} -> IsVec(s)
           [] op \in {"unpack", "unpackall", "load", "loads"} -> IsSrc(s)
           [] op = "foreach" -> IsSrc(s) /\ s.k = "iter"
           [] OTHER -> FALSE

Some(s, S, all) == IF (Thorough \/ (W <= (IF Plan = "C08" THEN 2 ELSE 4) /\ Plan \notin {"C10", "C11"})) /\ ~IsLong(s) THEN all ELSE S
Args(s, op) ==
    LET r == Rem(s)
        need == (Rem(s) * s.sz) \div SzOut(s)
        needAll == ((Rem(s) + s.w - 1) \div s.w) * WOut(s)
    IN CASE op = "adv" -> {<<n>> : n \in {q \in Some(s, {1, s.w - 1, s.w, s.w + 1, r} \cup (IF IsLong(s) THEN {r - s.w - 1, r - 1, 4 * s.w + 1} ELSE {}), 0..r) : q >= 0 /\ q <= r}}
         [] op = "unpack" -> {<<n>> : n \in Some(s, {0, 1, s.w - 1, s.w + 1, r, r + 2}, 0..(r + 1))}
         [] op = "unroll" /\ Plan = "C10" /\ ~Thorough -> {<<3, 1>>, <<4, 2>>}
         [] op = "unroll" -> {<<a, k>> : a \in {0, 1, 2, 3, 7, 8, 9}, k \in IF IsLong(s) THEN {2, 20} ELSE {1, 3}}
         [] op = "foreach" -> {<<0>>, <<1>>, <<2>>}
         [] op = "fill" -> {<<m>> : m \in {q \in {0, need - s.w, need - 1, need, need + 1, need + WOut(s) + 3} : q >= 0}}
         [] op = "fill_all" -> {<<m>> : m \in {q \in {0, need, needAll - 1, needAll, needAll + 1, needAll + WOut(s) + 3} : q >= 0}}
         [] op \in {"load", "store"} -> {<<n>> : n \in Some(s, {0, 1, s.len - s.w - 1, s.len - s.w, s.len - s.w + 1, s.len - 1, s.len}, 0..s.len)
                                              \cup {s.len + 1, s.len + s.w, -1, -2, 0 - s.w, -1000, -1001}}
         [] op \in {"loads", "stores"} -> {<<n>> : n \in Some(s, {0, 1, s.len - 1, s.len}, 0..s.len) \cup {s.len + 1, s.len + s.w, -1, -2, -1000, -1001}}
         [] op \in {"uload", "ustore"} -> {<<n>> : n \in {q \in Some(s, {0, 1, s.len - s.w - 1, s.len - s.w}, 0..s.len) : q >= 0 /\ q + s.w <= s.len}}
         [] op \in {"uloads", "ustores"} -> {<<n>> : n \in {q \in {0, 1, s.len - 1} : q >= 0 /\ q < s.len}}
         [] op \in {"ext", "rep"} -> {<<n>> : n \in 0..(s.w + 1) \cup {2 * s.w, -1, -1000}}
         [] op \in {"uext", "urep"} -> {<<n>> : n \in 0..(s.w - 1)}
         [] OTHER -> {<<>>}
\* negative offsets stand for ones near the top of the address range
RealArgs(op, a) == IF op \in {"load", "loads", "store", "stores"} /\ a[1] < 0 /\ a[1] > -1000 /\ a[1] < -2 THEN FALSE ELSE TRUE

Calls(s, ops) == {[op |-> op, a |-> a] : <<op, a>> \in UNION {{<<op, a>> : a \in {x \in Args(s, op) : RealArgs(op, x)}} : op \in {x \in ops : Supports(s, x)}}}
\* ... and a change of element width is specified for whole output lanes only
Allowed(s, c) == ~Unspecified(s, c.op, c.a) /\ (LastTo(s) => (Rem(After(s, c.op, c.a)) * s.sz) % SzOut(s) = 0)
CallStr(c) == c.op \o Join([i \in 1..Len(c.a) |-> " " \o Str(c.a[i])], "")

\* how a program goes on after the call under test
RECURSIVE Times(_, _)
Times(n, x) == IF n = 0 THEN "" ELSE x \o Times(n - 1, x)
Drained == {"C01", "C07", "C08", "C09", "C11", "C23"}
Closing(s, op) ==
    IF s.k = "arr" \/ Plan = "C12" \/ s.dead THEN ""
    ELSE IF Rem(s) = 0 THEN "|next|end" \o (IF Plan = "C10" THEN "|q|next" ELSE "")
    ELSE IF Plan = "C10" THEN "|q|fin|q|next|end"
    ELSE IF Plan \in Drained /\ op \notin {"load", "loads", "dflt"} THEN Times(Rem(s) \div s.w + 1, "|next") \o "|end|next|end"
    ELSE "|next"

(***************************************************************************)
(* The state machine                                                       *)
(***************************************************************************)
VARIABLES cfg,   \* configuration
          cur,     \* Iter state
          prog,  \* the calls so far, as text
          last,  \* previous call
          steps,     \* number of calls
          seen   \* indices of the elements consumed, in order (ghost)
vars == <<cfg, cur, prog, last, steps, seen>>
View == <<cfg.h, IF cur = <<>> THEN <<>> ELSE <<cur.pos, cur.held, cur.dead>>, last>>

Init == /\ cfg \in Configs
        /\ cur = IF MustReject(cfg.b) THEN <<>> ELSE Start(cfg.b)
        /\ prog = "" /\ last = "" /\ steps = 0
        /\ seen = [i \in 1..(IF cur = <<>> THEN 0 ELSE cur.pos) |-> i]

Do(c) ==
    \E r \in Results(cur, c.op, c.a) :
       /\ cur' = r.s
       /\ seen' = seen \o [i \in 1..(r.s.pos - cur.pos) |-> cur.pos + i]
       /\ prog' = prog \o "|" \o CallStr(c)
       /\ last' = IF c.op \in {"adv", "unpack"} THEN c.op \o Str(c.a[1]) ELSE c.op
       /\ steps' = steps + 1
       /\ UNCHANGED cfg
Next == cur # <<>> /\ steps < Depth /\ ~cur.dead /\ \E c \in Calls(cur, MoveOps) : Allowed(cur, c) /\ Do(c)
Spec == Init /\ [][Next]_vars
\* random walks mix moves with calls under test
WalkNext == cur # <<>> /\ ~cur.dead /\ steps < Walk /\ \E c \in Calls(cur, MoveOps \cup FocusOps) : Allowed(cur, c) /\ Do(c)
WalkSpec == Init /\ [][WalkNext]_vars

(***************************************************************************)
(* Programs                                                                *)
(***************************************************************************)
Line(p) == PrintT("P|" \o cfg.h \o p)
Emit == IF cur = <<>> THEN Line("|next")
        ELSE \A c \in Calls(cur, FocusOps) : Allowed(cur, c) => Line(prog \o "|" \o CallStr(c) \o Closing(After(cur, c.op, c.a), c.op))
EmitWalk == (cur # <<>> /\ (steps = Walk \/ cur.dead)) => Line(prog \o Closing(cur, last))

\* Collections far longer than the ones explored, by hand: lengths and positions need more than 8, 10, 12, 16 bits.
\* %H stands for one element type, %Y for one pair of them.
Huge ==
    LET N == 65536 + W + W \div 2 + 1
        M == 4096 + 3 * W - 1
        Q == 1024 + W + 1
        L3 == {N, M, Q}
        It(back, m, n) == "iter %H " \o back \o " " \o Str(n) \o " " \o m
        Sd(c, n, m) == "stride %H ref " \o Str(n) \o " " \o c \o " " \o m
        Zp(n, m) == "zip %Y 2 " \o LensStr(<<n, n>>) \o " 0 " \o m
        Sz(n, m) == "szip %D ref " \o Str(n + (n % 2)) \o " 0 " \o m
        Ad(n, m) == "adapt %H " \o Str(n) \o " " \o m
        A(n) == "|adv " \o Str(n)
        ToEnd(n) == A(n - W - 1) \o "|next|end|next|end"
        H(heads, calls) == {h \o c : h \in heads, c \in calls}
    IN CASE Plan = "C01" -> UNION {H({It(b, "-", n) : b \in {"ref", "vec", "mut"}}, {ToEnd(n), A(n - 2 * W - 2) \o "|unpack 5|next|next|end"}) : n \in L3}
         [] Plan = "C02" -> UNION {H({It("ref", m, n) : m \in {"-", "lane"}}, {"|collect|next", A(n - W - 1) \o "|collect|next"}) : n \in L3}
                            \cup UNION {H({Sd("two.1", 2 * n, "lane"), Zp(n, "add")}, {"|collect|next"}) : n \in {M, Q}}
         [] Plan = "C03" -> UNION {H({It("ref", m, n) : m \in {"-", "lane"}}, {"|fill " \o Str(n + W), "|fill " \o Str(n), A(n - W - 1) \o "|fill 999"}) : n \in L3}
         [] Plan = "C04" -> UNION {H({It("ref", m, n) : m \in {"-", "lane"}}, {"|fill_all " \o Str(n + W), "|collect_all"}) : n \in L3}
         [] Plan = "C05" -> UNION {H({It("mut", "-", n)}, {"|foreach 1|next", "|next|foreach 2", A(n - W - 1) \o "|foreach 0|next"}) : n \in L3}
         [] Plan = "C06" -> UNION {H({It("ref", "lane", n), It("ref", "-", n), Zp(n, "-")}, {"|reduce", "|doeach"}) : n \in {M, Q}}
                            \cup H({It("ref", "-", N)}, {"|reduce"})
         [] Plan = "C07" -> UNION {H({Zp(n, m) : m \in {"-", "add"}}, {ToEnd(n)}) : n \in L3} \cup H({Zp(n, "add") : n \in {M, Q}}, {"|collect"})
                            \cup {"zip %Y 2 " \o LensStr(<<n, x>>) \o " 0 -|next" : n \in L3, x \in {256, 1024, 4096, 65536, N - 1, M + W, W, 1}}
         [] Plan = "C08" -> UNION {H({Sd(c, 2 * n + 1, "-") : c \in {"two.0", "two.1", "dyn2.1"}}, {ToEnd(n), "|collect", A(n - 5) \o "|unpackall"}) : n \in L3}
                            \cup UNION {H({Sd("two.1", 2 * n + 1, "-")}, {"|load " \o Str(n - W), "|load " \o Str(n + 1), "|loads " \o Str(n - 1)}) : n \in {M, Q}}
                            \cup UNION {H({Sd("dyn300.299", 300 * (W + 2), "-"), Sd("into257.256", 257 * W + 300, "-")}, {"|next|next|end", "|collect"})}
         [] Plan = "C09" -> UNION {H({Sz(2 * n, "-")}, {"|adv " \o Str(n - W - 1) \o "|next|end|next", "|collect", "|reduce"} \ (IF n = N THEN {"|reduce", "|collect"} ELSE {"|collect"})) : n \in {M, Q}}
         [] Plan = "C10" -> UNION {H({It("ref", "-", n), It("ref", "lane", n), Sd("two.1", 2 * n + 1, "-"), Zp(n, "add"), Ad(n, "-"), Sz(2 * n, "-")},
                                     {"|q|adv " \o Str(n - W - 1) \o "|q|next|q|end|q|next", "|fin|q"}) : n \in L3}
         [] Plan = "C11" -> UNION {H({It("ref", "-", n)}, {A(n - 5) \o "|unpackall", A(n - 9 * W - 1) \o "|unroll 4 2|unroll 1 20|end|next",
                                                          A(n - 9 * W - 1) \o "|unroll 8 2|end"}) : n \in L3}
                            \cup H({It("ref", "-", Q), Sd("two.1", 2 * Q, "-")}, {"|unroll 8 200|end", "|unpackall"})
         [] Plan = "C12" -> UNION {H({"arr %H " \o c \o " " \o Str(n) : c \in {"ref", "mut", "vec"}},
                                     {"|load " \o Str(n - W), "|load " \o Str(n - W + 1), "|loads " \o Str(n - 1), "|loads " \o Str(n), "|uload " \o Str(n - W)}) : n \in L3}
                            \cup UNION {H({"arr %H mut " \o Str(n)},
                                     {"|store " \o Str(n - W), "|store " \o Str(n - W + 1), "|stores " \o Str(n - 1), "|stores " \o Str(n), "|ustore " \o Str(n - W)}) : n \in L3}
         [] Plan = "C23" -> UNION {H({Ad(n, m) : m \in {"-", "lane"}}, {ToEnd(n), "|collect", "|reduce"}) : n \in {M, Q}} \cup H({Ad(N, "-")}, {ToEnd(N), "|collect"})
ASSUME IOEnv.HUGE = "yes" => \A p \in Huge : PrintT("P|" \o p)

(***************************************************************************)
(* Design properties                                                       *)
(***************************************************************************)
Live == cur # <<>> /\ cur.k # "arr"
TypeOK == Live => cur.pos \in 0..cur.len /\ \A i \in 1..Len(cur.st) : Len(cur.st[i].d) = cur.len /\ Len(cur.st[i].f) = cur.w
\* C01, C08, C09: consumed and remaining elements partition the collection, in order
ExactlyOnce == Live => seen = [i \in 1..cur.pos |-> i]
\* what is delivered from here on is the rest, in order, padded at the front of the last vector only
RestInOrder == (Live /\ cur.fns = <<>> /\ cur.k # "szip") =>
    \A i \in 1..Len(cur.st) :
        LET D == Deliveries(cur)
        IN Flat([j \in 1..Len(D) |-> SubSeq(D[j].v[i], D[j].n + 1, cur.w)]) = SubSeq(cur.st[i].d, cur.pos + 1, cur.len)
PaddingIsDefault == (Live /\ cur.fns = <<>>) =>
    LET D == Deliveries(cur) IN
    \A i \in 1..Len(cur.st) : \A j \in 1..Len(D) :
        LET x == D[j]
        IN x.n < cur.w /\ (j < Len(D) => x.n = 0) /\ SubSeq(x.v[i], 1, x.n) = SubSeq(cur.st[i].f, 1, x.n)
\* C02, C04: collecting keeps exactly the elements, or whole vectors
CollectExact == (Live /\ IsVec(cur)) =>
    /\ Len(Images(cur)) * SzOut(cur) = Rem(cur) * cur.sz
    /\ Len(AllLanes(cur)) = Len(Deliveries(cur)) * WOut(cur)
\* C08: the strides of a collection partition its complete groups
GroupsPartition == (Live /\ cur.k = "zipstride") =>
    LET m == Len(cur.st)
    IN [i \in 1..(m * cur.len) |-> cur.st[((i - 1) % m) + 1].d[((i - 1) \div m) + 1]] = SubSeq(cfg.b.st[1].d, 1, m * cur.len)
\* C06: a reduction sees what iteration would deliver
\* (in the quick tier, the costly ones only on collections of a few vectors)
Invariants ==
   IF ~Thorough /\ cur # <<>> /\ IsLong(cur) THEN TypeOK /\ ExactlyOnce
   ELSE TypeOK /\ ExactlyOnce /\ RestInOrder /\ PaddingIsDefault /\ CollectExact /\ GroupsPartition
=============================================================================
