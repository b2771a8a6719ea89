#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech,
                     observe_at=observe or [], hook_needed=hook)))
it = "src/iters.rs"; zp = "src/zip.rs"; st = "src/stride.rs"; sz = "src/stride_zip.rs"
x = "src/arch/x86/intrin/"
prop("C01", "Iteration delivers every element exactly once, in order, tail padded",
 "For every slice length, vector width and element type, a SIMD iterator over an owned vector, a shared slice or a mutable slice yields consecutive full vectors, then at most one tail vector whose last lanes hold the remaining elements in order and whose leading lanes hold the corresponding lanes of the caller's default, reported together with the exact number of those padding lanes. Every element from the iterator's current position to the end is delivered exactly once and in order, whatever mixture of advancing, scalar stepping and vector stepping went before, and nothing is delivered afterwards. When no more than one vector's worth of elements remain, asking for the tail never panics and never reads outside the collection.",
 ["histories","inputs","configurations"],
 "every element type, container, length, default vector, and every sequence of next/advance/end/finalize calls, on SSE2, SSE4.2 and AVX2 builds",
 "Unit and integration tests use a few fixed lengths with splat defaults and always iterate from position 0 to the end; positions not aligned to the width, collections shorter than a vector and lane-distinct defaults are never sampled.",
 [it,"src/into_iters.rs"],
 [dict(name="SIMDIter::next / SIMDIterator::end", where=it), dict(name="merge_partitioned", where="src/intrin/merge.rs")],
 [dict(name="position", meaning="scalars consumed so far", where=it)], ["next", "end", "scalar_pos"])
prop("C02", "Map then scalar_collect equals the scalar map of the remaining elements",
 "Collecting a (possibly mapped) SIMD iterator into a Vec returns exactly the images of the not yet consumed elements, in order, with no padding lanes, no missing elements and no uninitialised values, for every length and every starting position. Maps which change the element width yield the reinterpreted bytes of exactly the remaining elements. The function is applied once per delivered vector, tail included.",
 ["inputs","histories","configurations"],
 "every length, type, start position (aligned or not), composition of maps, including maps whose output elements are wider or narrower",
 "Tests collect whole arrays from position 0 with identical or few distinct elements; resuming a partially consumed iterator and unusual lengths per width are not sampled.",
 [it], [dict(name="IntoScalar::scalar_collect", where=it), dict(name="SIMDMap::next/end", where=it)], None, ["scalar_collect"])
prop("C03", "scalar_fill writes exactly the remaining elements and nothing else",
 "Filling a caller-provided buffer stores the images of the remaining elements, in order, at the start of the buffer and leaves every later element of the buffer unchanged. It returns that same buffer. A buffer too small for the result is rejected by a panic rather than written out of bounds.",
 ["inputs","histories","configurations"],
 "every length, type, start position, and buffer length smaller than, equal to or larger than the result",
 "Tests fill buffers of exactly the right size and check their content only; they never look beyond the result nor at short buffers.",
 [it], [dict(name="IntoScalar::scalar_fill", where=it)], None, ["scalar_fill"])
prop("C04", "collect_all / fill_all store whole vectors including the padding",
 "The *_all collectors store every vector the iterator delivers, the padded tail vector included, back to back: full vectors in order, then the tail with its padding lanes first. The length of a collected Vec is a whole number of vectors and equals what was delivered; a fill leaves the rest of the buffer unchanged and rejects a buffer that is too small by a panic.",
 ["inputs","histories","configurations"],
 "every length, type, start position and buffer length",
 "No test calls these collectors at all.",
 [it], [dict(name="IntoScalar::scalar_collect_all / scalar_fill_all", where=it)], None, ["scalar_collect_all","scalar_fill_all"])
prop("C05", "In-place simd_for_each updates each remaining element exactly once",
 "Running a function in place over a mutable slice replaces every not yet consumed element by its image under exactly one application of the function to the vector that delivered it, and leaves already consumed elements and memory outside the slice unchanged. The tail is handled for every length, including slices shorter than a vector and iterators which were advanced before. Afterwards the iterator is exhausted.",
 ["inputs","histories","configurations"],
 "every length, type, start position and non-idempotent lane function",
 "The existing tests run it from position 0 over a couple of lengths with one function; starting after an advance or with an unaligned position is never tried.",
 [it], [dict(name="SIMDIteratorMut::simd_for_each", where=it)], None, ["the slice after the call"])
prop("C06", "Reduce and do_each visit each delivered vector once, in order",
 "Reduction folds the accumulator through exactly the vectors iteration would deliver, in order and once each, ending with the padded tail if there is one, and returns the last accumulator; with nothing left it returns the initial accumulator untouched. do_each calls its closure on the same sequence. Both hold for plain, strided, mapped and zipped iterators and leave the iterator exhausted.",
 ["inputs","histories","configurations"],
 "every length, type, default vector, start position and adapter",
 "Tests reduce with commutative sums of equal elements, so order, duplication and padding lanes are invisible.",
 [it, zp], [dict(name="SIMDIterator::simd_reduce/simd_do_each, SIMDZippedIterator::simd_reduce/simd_do_each", where=it)], None, ["closure arguments"])
prop("C07", "Zipped iterators advance in lockstep and reject unequal lengths",
 "Zipping 2 to 13 iterators yields, at each step, a tuple whose k-th vector holds the k-th iterator's own elements at the same indices, and one final tuple in which each tail is padded with that iterator's own default and all share one padding count. Mapping and collecting a zip equals the element-wise scalar map. Iterators that do not describe the same number of elements are rejected with a panic when zipped, never paired wrongly or read out of bounds.",
 ["inputs","histories","configurations"],
 "every arity from 2 to 13, element types, lengths (equal and unequal), defaults, and call histories on the zip",
 "Tests zip equal-length arrays of splat data; misaligned components or a wrong default for the k-th component would not show. Unequal lengths with equal vector counts are never tried.",
 [zp], [dict(name="Zip::next/end, IntoSIMDZip::zip", where=zp), dict(name="UnsafeIterator", where=it)], None, ["next","end","zip panic"])
prop("C08", "Strided iteration deinterleaves the collection",
 "For a stride of s, the k-th strided iterator behaves exactly as an iterator over the sequence of elements k, k+s, k+2s, ... of the collection's complete groups of s elements, with its own default: same vectors, same padded tail, same random access. A list of defaults whose length is not the number of iterators is rejected with a panic. This holds for every stride constructor, every stride count and every collection length, and the group of iterators together deliver each element of the complete groups exactly once.",
 ["inputs","histories","configurations"],
 "every stride from 1 up, every constructor (two/three/four/nine/dynamic/into), every length, and call histories",
 "Tests use stride two on 16 elements and fixed large arrays with equal values; boundary lengths and tails of strided iterators are not sampled.",
 [st], [dict(name="PackedStride", where=st), dict(name="Stride::stride_*", where=st)], None, ["next","end","load","load_scalar"])
prop("C09", "stride_zip splits a stream into its even and odd elements",
 "A stride-zipped iterator delivers pairs of vectors: the even-indexed elements from the starting position in the first, the odd-indexed in the second, in order, each delivered exactly once over full steps. The final pair holds the remaining evens and odds contiguously with the reported number of padding lanes, for every length that is a whole number of pairs.",
 ["inputs","histories","configurations"],
 "every even length, element type with a destride operation, start position",
 "The existing test uses one type and one length whose vectors divide evenly and whose values hide misplaced tail lanes.",
 [sz, x+"destride.rs"], [dict(name="StrideZip::next/end", where=sz)], None, ["next","end"])
prop("C10", "Position and length bookkeeping is exact for every adapter",
 "Position, length and width reported by any iterator or adapter (plain, strided, mapped, zipped, zip-mapped, stride-zipped), in scalars or vectors, equal the number of elements already consumed and the number of elements it describes, after any sequence of calls. advance(n) skips exactly n elements; finalize leaves the iterator exhausted, so that nothing more is delivered.",
 ["histories","inputs","configurations"],
 "every adapter and every sequence of next/advance/end/finalize calls, every length",
 "No test reads positions or calls advance/finalize except incidentally.",
 [it, zp, st, sz], [dict(name="scalar_pos/vector_pos/scalar_len/vector_len/advance/finalize", where=it)], None, ["scalar_pos","scalar_len","len"])
prop("C11", "Switching between packed, scalar and unrolled iteration loses nothing",
 "Unpacking an iterator gives a scalar iterator over exactly the remaining elements, and packing it back resumes vector iteration where scalar iteration stopped. Unrolled iteration yields non-empty slices of at most the requested number of consecutive full vectors, covering exactly the full vectors that plain iteration would deliver, and leaves the tail to be taken afterwards. Requests to unroll by more than eight are rejected.",
 ["histories","inputs","configurations"],
 "every interleaving of packed, unpacked and unrolled use, every length, every unroll amount",
 "There is no test which mixes these modes at unaligned positions, and none for unroll amounts other than the example's.",
 [it], [dict(name="Unpacked, Unrolled", where=it)], None, ["next on each adapter"])
prop("C12", "Checked loads and stores touch exactly the addressed lanes or panic",
 "Checked random-access loads, stores, scalar loads and scalar stores on collections, iterators and vectors address exactly the elements from the given offset: a load returns them in order, a store changes them and nothing else. An access that does not fit entirely inside the collection panics and changes nothing. Extracting or replacing a lane addresses exactly that lane, and an out-of-range lane index panics.",
 ["inputs","configurations"],
 "every offset (in range, boundary, out of range), length, type, container and lane index",
 "Tests hardly use random access; out-of-range accesses and neighbours of a store are not observed.",
 ["src/vecs.rs", it, st], [dict(name="Packed::load/store/extract/replace", where="src/vecs.rs"), dict(name="SIMDArray/SIMDArrayMut", where=it)], None, ["return value, panic, collection afterwards"])
prop("C13", "Pattern constructors and merges place every lane as documented",
 "halfs, interleave, partition, partition_mask, ones and zeroes build vectors with exactly the documented lane at every index, for every split point from zero to the width, and merge_halves, merge_interleaved and merge_partitioned take at each index the lane of the documented operand, for arbitrary lane contents. All element types, vector sizes and target CPUs agree.",
 ["inputs","configurations"],
 "every vector type (128, 256, 512 bit), every split point in range, arbitrary lane values",
 "Tests use splat operands with two constants, so lanes taken from the right operand but the wrong index are invisible.",
 ["src/arch/x86/vec_patterns.rs","src/intrin/merge.rs",x+"merge.rs"], [dict(name="Pattern", where="src/arch/x86/vec_patterns.rs"), dict(name="Merge", where="src/intrin/merge.rs")])
prop("C14", "Lane-wise abs, min, max and saturating add/sub are exact on every lane",
 "For every lane: abs gives the magnitude (in the unsigned counterpart for integers, so the most negative value is represented), min and max give the smaller and larger operand under the type's own ordering, saturating addition and subtraction clamp to the type's range. Lanes never influence each other and all target CPUs agree.",
 ["inputs","configurations"],
 "every type implementing the operation, arbitrary lane values including extremes and mixed lanes",
 "Tests compare splats of a few values; sign boundaries and lane cross-talk are not sampled.",
 [x+"abs.rs",x+"cmp.rs",x+"saturating_add.rs",x+"saturating_sub.rs"], [dict(name="Abs, Cmp, SaturatingAdd, SaturatingSub", where=x)])
prop("C15", "Horizontal add/sub combine adjacent lanes of both operands, interleaved",
 "hadd and hsub return, at even index 2i, the combination of lanes 2i and 2i+1 of the first operand and, at odd index 2i+1, that of the second operand's lanes 2i and 2i+1; the saturating versions clamp each combination to the type's range. All element types, vector sizes and target CPUs agree whenever the combination is representable.",
 ["inputs","configurations"],
 "every vector type implementing the operation, arbitrary lanes",
 "Tests use interleaved or splat operands whose pairs are all equal, so taking the wrong pair is invisible.",
 [x+"hadd.rs",x+"hsub.rs",x+"saturating_hadd.rs",x+"saturating_hsub.rs","src/intrin/macros.rs"], [dict(name="HAdd, HSub, SaturatingHAdd, SaturatingHSub", where=x)])
prop("C16", "Upcast and saturating downcast preserve value and lane order",
 "Upcasting returns two vectors holding the first and second half of the input's lanes, in order and with unchanged numeric value; the saturating downcast returns the first operand's lanes then the second's, in order, each clamped to the destination's range. Downcasting an upcast gives back the original vector.",
 ["inputs","configurations"],
 "every upcast and downcast pair of vector types, arbitrary lanes including values outside the destination range",
 "Tests use interleaved small constants; lane order across 128-bit halves and out-of-range values of every lane are not sampled.",
 [x+"upcast.rs",x+"downcast.rs"], [dict(name="Upcast, Downcast", where=x)])
prop("C17", "Equality masks are all ones exactly where lanes are equal",
 "eq_mask yields, per lane, all bits set if the two lanes compare equal under the element type's equality (IEEE equality for floats) and all bits clear otherwise; ne_mask is its exact complement.",
 ["inputs","configurations"],
 "every vector type, arbitrary lanes including NaN, signed zero and lanes differing in a single bit",
 "Tests compare 0 and 1 in splat-like patterns only.",
 [x+"eq.rs","src/intrin/eq.rs"], [dict(name="Eq", where="src/intrin/eq.rs")])
prop("C18", "Bit reinterpretation, byte order and population counts are exact",
 "Reinterpreting a vector as another element type preserves all its bytes in memory order; byte swapping reverses the bytes within each lane and leaves lanes in place, with to/from big/little endian conversions equal to a swap or the identity as the target requires; counting ones and zeroes gives the number of set and clear bits of the whole vector.",
 ["inputs","configurations"],
 "every vector type and size, arbitrary bytes",
 "Tests use small splats; the swap tests fail or are shadowed by a same-named method of the vector crate, so the trait's own behaviour is effectively untested.",
 [x+"transmute.rs","src/intrin/transmute.rs",x+"endian.rs","src/intrin/endian.rs",x+"popcnt.rs","src/intrin/popcnt.rs"], [dict(name="Transmute, Reendianize, Popcnt", where="src/intrin")])
prop("C19", "Whole-vector reductions combine every lane once",
 "sum and product combine every lane of the vector exactly once and equal the mathematical result whenever no combination of some of the lanes overflows; the upcasting sum returns the exact sum of all lanes as a 64-bit integer for every integer type no wider than 32 bits. scalar_reduce calls its closure on lanes in index order, and coalesce of a splat returns the splatted value.",
 ["inputs","configurations"],
 "every vector type and size, arbitrary lanes",
 "Tests sum splats of small values, so a lane counted twice in place of another is invisible.",
 [x+"sum.rs","src/intrin/sum.rs","src/vecs.rs"], [dict(name="Sum, UpcastSum, Packed::product/scalar_reduce/coalesce", where=x+"sum.rs")])
prop("C20", "Destriding separates interleaved vectors and keeps order",
 "destride_two of two consecutive vectors returns the even-indexed lanes and the odd-indexed lanes of their concatenation, each in order; destride_four does the same for four vectors and residues modulo four. All element types, sizes and target CPUs agree.",
 ["inputs","configurations"],
 "every vector type implementing the operation, arbitrary lanes",
 "Tests use patterns that repeat with the stride, so lane order and the origin of each lane are invisible.",
 [x+"destride.rs","src/intrin/destride.rs"], [dict(name="Destride", where=x+"destride.rs")])
prop("C21", "Rounding functions return the documented integer on every lane",
 "For every finite lane, floor, ceil, trunc and round return the integer-valued float that is respectively the greatest not above, the least not below, the nearest towards zero, and the nearest to the input; exact ties of round may go either way. Values already integral, infinities and values too large to have a fraction are returned unchanged, and lanes do not influence each other.",
 ["inputs","configurations"],
 "every float vector type, arbitrary finite lanes of both signs, subnormals and large magnitudes",
 "Tests walk splats of 0.0, 0.4 and 0.8 offsets between -32 and 32.",
 [x+"round.rs"], [dict(name="Round", where=x+"round.rs")])
prop("C22", "The trace feature reports each site once per thread and changes no result",
 "With tracing enabled, every call site of a fallback or accelerated operation that a thread executes is reported once by that thread, to standard output and to the log file, however often it runs, and each thread reports its own. Enabling tracing never changes the value any operation returns.",
 ["schedules","histories","configurations"],
 "every sequence of operations on any number of threads",
 "No test enables the feature.",
 ["src/debug.rs"], [dict(name="debug_output_once", where="src/debug.rs")], [dict(name="OUTPUT_GUARD", meaning="per-thread set of reported sites", where="src/debug.rs")], ["stdout", "faster-debug.txt"])
prop("C23", "Packing a scalar iterator delivers each item once, in order",
 "The adapter which packs an arbitrary exact-size scalar iterator into vectors delivers each item exactly once and in order: full vectors first, then one tail vector padded with the default vector, together with the number of padding lanes. It delivers nothing further once exhausted.",
 ["inputs","histories"],
 "every length, type and default vector",
 "No test constructs the adapter.",
 [it], [dict(name="SIMDAdapter::next/end", where=it)], None, ["next","end"])
prop("C24", "Reciprocal and reciprocal square root estimates are close on every lane",
 "recip and rsqrt return, on every lane, an approximation of the lane's reciprocal (square root) within the documented error, and lanes do not influence each other.",
 ["inputs","configurations"],
 "every float vector type, every finite nonzero lane",
 "Tests check lane 0 of splats.",
 [x+"recip.rs",x+"rsqrt.rs"], [dict(name="Recip, Rsqrt", where=x+"recip.rs")])
prop("C25", "Square roots are correctly rounded on every lane",
 "sqrt returns, on every lane, the correctly rounded square root of that lane: for finite non-negative lanes the representable number nearest to the exact root, zeroes and positive infinity unchanged, and a NaN for NaN and for negative lanes. Lanes do not influence each other and all target CPUs agree.",
 ["inputs","configurations"],
 "every float vector type, every lane value",
 "Tests check splats of 1 and 9.",
 [x+"sqrt.rs", "src/intrin/sqrt.rs"], [dict(name="Sqrt", where=x+"sqrt.rs")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
