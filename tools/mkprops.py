import json
P=[]
def path(f): return f[1:] if f[0]=='@' else 'include/embedded/'+f
def p(id,title,stmt,over,qt,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    a={"files":[path(f) for f in files],"mechanism":[{"name":n,"where":path(w)} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":"include/embedded/"+w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
CB=["circular_buffer_adapter.h","detail/circular_buffer_adapter.h"]
cbst=[("begin_/end_","the caller's memory","circular_buffer_adapter.h"),("first_/last_/size_","ring position of the oldest element, of the next free slot, and the element count","circular_buffer_adapter.h")]
p("C01","Circular buffer behaves as a bounded double-ended queue",
 "After any sequence of pushes, emplacements, single and counted pops, assignments through returned references, and clears that respects the capacity, the size, empty, full, capacity and remaining answers and the elements seen by indexing, checked indexing, front, back and traversal are those of an ideal double-ended queue given the same calls. Emplacement returns a reference to the new element, and pushing a copy of an element already stored works. Checked access outside the current contents raises an out-of-range error and changes nothing. An adapter without capacity (also a default-constructed one) is empty and full at once and has nothing to traverse.",
 ["histories","inputs","configurations"],"every call sequence allowed by the preconditions, every capacity, every starting slot and element type",
 "tests/circular_buffer_adapter.cpp compares a few fixed sequences on two capacities; wrap-around positions x operations x element types is unbounded.",CB,
 [("ring index arithmetic inc/dec/add/sub/wrap_around","circular_buffer_adapter.h"),("full/empty told apart by the separate count","circular_buffer_adapter.h")],cbst,["public member functions"])
p("C02","Stored elements never move and only the affected slots are touched",
 "From its insertion to its removal an element keeps its address and value and is never copied, moved or assigned by the buffer, and element i always lies i slots, wrapping at the end of the memory, after the first one. An operation changes the memory only of the slots of the elements it adds or removes, and read-only operations change nothing. Memory outside the range given at construction is never read or written.",
 ["histories","inputs","configurations"],"every operation from every reachable ring position and fill level, every element size and alignment",
 "The tests look at values only; they never look at addresses, at untouched slots or at the surrounding memory.",CB,
 [("placement new into the slot next to the live region","circular_buffer_adapter.h"),("split copies at the end of the memory","circular_buffer_adapter.h")],cbst,["addresses of returned references","raw image of the caller's memory and of guard zones round it"])
p("C03","A persistent buffer survives re-attachment and interrupted insertions",
 "At any time, the raw index of an iterator is the slot of its element (for the end iterator the slot where the next back insertion goes), and a new adapter built over the same memory from the raw index of the first element and the element count, in any constructor form, presents the same elements and continues exactly like the old one; moving an adapter hands over its contents. If execution stops anywhere inside an insertion (single or bulk), re-attaching with the position and count saved before it yields the contents from before it.",
 ["histories","crash_points","configurations"],"every history, every point at which execution can stop inside an insertion, each constructor form, including a start position equal to the end of the memory",
 "Tests re-attach once after a fixed history and never stop an operation half-way.",CB,
 [("constructors from index/pointer and count","circular_buffer_adapter.h"),("raw_index","circular_buffer_adapter.h"),("insertion writes the free slot before the bookkeeping changes","circular_buffer_adapter.h")],cbst,["raw_index(begin())","size()","memory image"])
p("C04","Element lifetimes in the circular buffer are exact",
 "For element types with non-trivial lifetime, each insertion starts exactly one object in its slot from the right value category (copy, move or in-place arguments), each single or counted removal and each clear ends the lifetime of exactly the removed elements, once each, and at every moment the live objects in the memory are exactly the elements. Elements that exist when the adapter is attached are adopted, and destroying or moving the adapter itself creates and destroys no element. This holds also for element types that have an operator new of their own, which is not used.",
 ["histories","inputs","configurations"],"every history from every ring position, with copyable, copy-only, move-only, over-aligned and owning element types",
 "Tests use one std::shared_ptr sequence; a missed or doubled destruction at another wrap position or for another removal call goes unnoticed.",CB,
 [("destroy()/pop/clear","circular_buffer_adapter.h"),("placement new in push/emplace","circular_buffer_adapter.h")],cbst,["constructor/destructor ledger of an instrumented element type"])
p("C05","A throwing insertion leaves the circular buffer unchanged",
 "If the construction of a new element throws, the exception reaches the caller and the buffer is exactly as it was before the call: same count, same elements at the same addresses, no live object added or removed, and it can be used further. This holds for every single-element insertion at either end.",
 ["fault_sequences","histories"],"every insertion form, every ring position and fill level, any number of failures in a history",
 "No test ever throws from an element constructor.",CB,
 [("construct first, then update bookkeeping","circular_buffer_adapter.h")],cbst,["state observed after the exception"])
p("C06","Circular buffer iterators obey random-access position algebra",
 "Mutable, constant and reverse iterators denote positions 0..size of the current contents: advancing, retreating, adding, subtracting, differences, indexing and all comparisons agree with integer arithmetic on those positions, dereferencing at position i yields element i, and a mutable iterator converts to the constant iterator of the same position. This holds at every ring position, also when the buffer is full or empty, so standard algorithms see exactly the elements in order.",
 ["histories","inputs","configurations"],"every ring position and fill level, every pair of positions, every offset that stays in range, both constnesses and directions",
 "Tests walk a few ranges; the end position of a full buffer and steps across the end of the memory are special cases met only for some positions.",CB,
 [("end iterator is a null pointer; index()/realiter()","detail/circular_buffer_adapter.h"),("add/sub wrap","circular_buffer_adapter.h")],[("it_","slot pointer, null at end","detail/circular_buffer_adapter.h")],["iterator operators"])
p("C07","Bulk copies equal element-by-element transfers",
 "Copying n elements in at the back or front makes them the last or first n elements in source order; copying out at the front or back delivers the first or last n elements in order and removes exactly those; copying into or out of an iterator range overwrites or reads exactly the elements of that range and changes neither count nor positions. The source range, other elements and other memory stay unchanged, for every n including 0 and the full capacity, across the end of the memory or not.",
 ["histories","inputs","configurations"],"every ring position, fill level, count and iterator range, every trivial element size",
 "Tests use one capacity and few split positions.",CB,
 [("copy_in_impl/copy_out_impl split at end_","circular_buffer_adapter.h")],cbst,["contents, destination arrays and memory image"])
FN=["function.h"]
p("F01","A function wrapper calls exactly the callable it currently holds",
 "After any sequence of construction, move construction, move assignment, assignment of callables, function pointers, member pointers or null, and swaps, a non-empty wrapper invokes the callable last stored in it, with that callable's accumulated state, and returns its result. A wrapper is non-empty exactly when it holds a callable: default construction, null, a null member pointer and being moved from make it empty. Calling an empty wrapper raises the bad-function-call error (terminates when exceptions are disabled) and leaves it empty.",
 ["histories","inputs","configurations"],"all histories over several wrappers, all signatures, callable kinds, storage sizes and alignments",
 "tests/function.cpp is not even compiled in this build, and samples one history per feature.",FN,
 [("vtbl pointer selects call and move/destroy code","function.h"),("moved-from wrapper gets the empty table","function.h")],[("vtbl_/storage_","type of, and in-place copy of, the held callable; empty table when empty","function.h")],["operator bool","call results"])
p("F02","A function wrapper owns its callable exactly once",
 "At every moment each stored callable exists in exactly one live instance, inside the wrapper holding it; it is destroyed exactly once, when its wrapper is destroyed, cleared or overwritten, and a moved-from source holds nothing that is destroyed later. This includes move assignment to itself (which leaves the wrapper either unchanged or empty), assignment over a held callable, swaps, and callables that own resources or other wrappers. Wrapping an lvalue copies it and leaves the original untouched; wrapping an rvalue moves it.",
 ["histories","inputs"],"all histories over several wrappers",
 "Leaks and double destructions show only in a lifetime ledger over whole histories.",FN,
 [("vt_proc move/destroy","function.h"),("move assignment destroys then re-constructs","function.h")],None,["constructor/destructor ledger of instrumented callables"])
p("F03","A function wrapper is const-correct",
 "A wrapper with a non-const signature can only be called through a non-const wrapper and calls the non-const overload of its callable; one with a const signature can be called through a const wrapper, always calls the const overload, and rejects callables that are not callable as const. Wrappers cannot be copied, accept only callables whose call accepts the arguments and whose result converts to the declared result (anything for void), and require callables that fit the storage and alignment and move without throwing.",
 ["programs","inputs"],"all signatures, constness combinations and callable types",
 "Negative compile-time facts and overload choice are sampled by few static assertions in a file left out of the build.",FN,
 [("function_traits for const and non-const signatures","function.h"),("is_invocable constraint and static_asserts","function.h"),("is_invocable_r","type_traits/is_invocable.h")],None,["type traits","which overload runs"])
p("F04","Function wrappers store in place, aligned, without dynamic memory",
 "Storing, moving, calling, overwriting and destroying wrappers never allocates dynamic memory and never throws; the callable always lives inside the wrapper's own bytes at an address aligned for its type and is preserved byte for byte, for every accepted size up to the declared capacity and every accepted alignment.",
 ["inputs","configurations","histories"],"all capacities, alignments and callable sizes up to the capacity",
 "Tests do not count allocations or look at addresses.",FN,
 [("alignas(Alignment) storage_[Capacity], placement new","function.h")],None,["allocation counters","address of the running callable"])
p("F05","Function calls forward arguments, results and exceptions transparently",
 "A call through a wrapper passes every argument to the callable with its declared value category and identity (references refer to the caller's object, move-only values are moved through without loss and without extra copies, by-value arguments arrive intact) and returns the callable's result likewise (references by identity, move-only results, conversions, void discarding). An exception thrown by the callable reaches the caller and leaves the wrapper holding its callable.",
 ["inputs","programs","fault_sequences"],"all parameter and result categories and positions",
 "Tests sample a handful of signatures.",FN,
 [("vt_call static_cast<Args&&>, std::forward in operator()","function.h")],None,["arguments seen by the callable"])
VI=["varint.h"]
p("V01","Varint encodings are canonical, minimal and correctly sized",
 "Every value of every integer type is encoded as its base-128 digits, least significant first, with the continuation bit on all but the last byte, signed values first folded so that 0,-1,1,-2,... become 0,1,2,3,.... The encoding has no superfluous byte, its length is what the size query answers (also at compile time), and all output forms (bounded, unbounded, inserting) produce the same bytes and the position after them.",
 ["inputs"],"every value of every signed and unsigned integer type of 8 to 64 bits and every output iterator form",
 "2^64 values; tests sample some.",VI,[("encode_impl, size, zig_zag_encode","varint.h")],None,["bytes written"])
p("V02","Varint decoding inverts encoding, also in streams",
 "Decoding the encoding of any value into the same or any wider type of the same signedness gives the value back and consumes exactly its bytes, whatever bytes follow; hence any concatenation of encodings decodes to the same sequence of values. Folding signed values to unsigned and back is a bijection on every type.",
 ["inputs","histories"],"all values, types and sequences of values, followed by arbitrary bytes",
 "Sequences and values are unbounded.",VI,[("decode, zig_zag_decode","varint.h")],None,["decoded value and returned position"])
p("V03","Bounded varint encoding never writes past the buffer",
 "Encoding into a bounded buffer succeeds exactly when the encoding fits, then writing exactly the encoding and nothing after it; otherwise it reports failure by returning the start and writes nothing at or beyond the end. This includes the empty buffer and buffers one byte short.",
 ["inputs"],"every value, type and buffer length",
 "Tests try few lengths.",VI,[("check_iter in encode_impl","varint.h")],None,["returned position and bytes around the buffer"])
p("V04","Varint decoding of arbitrary bytes is total and exact",
 "For any byte string decoding ends, reads nothing at or past the end nor past the byte that completes the value, and succeeds exactly when the string starts with a complete encoding (not longer than the type can need) whose value fits the target type, delivering that value and the position after it. Otherwise (truncated, or too large for the type, judged on all bits and not just the low ones) it returns the start.",
 ["inputs"],"every byte string and every target type",
 "Tests sample few malformed inputs; overflow in the last group must be judged for each type width.",VI,[("shift bound and overflow test in decode","varint.h")],None,["returned position, value, bytes read"])
p("M01","A lock guard holds its mutex exactly for its lifetime",
 "Creating a guard locks the given mutex exactly once before the guarded code runs and destroying it unlocks that same mutex exactly once, on every way out of the scope including exceptions; if locking throws, nothing is unlocked. Hence guarded sections on one mutex never overlap in any interleaving of threads, guards on different mutexes are independent, nested guards release in reverse order, and no guard leaves a mutex locked behind it.",
 ["schedules","fault_sequences","histories"],"all interleavings of several threads, several mutexes, nesting and exceptions",
 "Tests check one lock/unlock pair in one thread.",["mutex.h"],[("lock in constructor, unlock in destructor, no copies","mutex.h")],None,["lock/unlock calls of an instrumented mutex"])
p("W01","A move wrapper passes on its single payload intact",
 "However a move wrapper is copied or moved (also as capture of copied closures), the payload value is moved, never copied, to the newest wrapper and exists in exactly one of them with its exact value; access gives the payload itself, mutable or constant like the wrapper, whatever operators the payload's type defines. An exception thrown while the payload is moved reaches the caller and no instance is leaked or destroyed twice.",
 ["histories","fault_sequences"],"all copy/move/access histories over several wrappers with copyable, move-only and throwing payloads",
 "Tests use one std::unique_ptr hand-over.",["move_wrapper.h"],[("copy constructor moves out of the source","move_wrapper.h"),("conditional noexcept","move_wrapper.h")],None,["payload ledger"])
p("A01","Compile-time vectors implement fixed-length sequence algebra",
 "Creation, fill, conversion, indexing, append, subvector, erase, swap, swap-and-drop, transform, fold, equality, minimum search, counting, sorting and the scalar operators give, for every length including 0, exactly the result of the ordinary sequence operation; the minimum search returns the first minimum and sorting gives an ordered permutation. Evaluation at compile time and at run time agree.",
 ["inputs","configurations"],"all lengths, positions and contents",
 "Tests check one or two literals per operation.",["constexpr_math/vector.h","utility/integer_sequence.h"],[("index_sequence expansion, recursive argmin/count/sort","constexpr_math/vector.h")],None,["results"])
p("A02","Convolution and polynomial expansion are exact polynomial algebra",
 "The full convolution of two coefficient vectors of any positive lengths is the coefficient vector of the product polynomial, and expanding a list of zeros gives the monic polynomial with exactly these zeros, independent of their order; with real and with complex coefficients, at compile time and at run time alike.",
 ["inputs","configurations"],"all lengths and coefficient values (exactly representable ones compared exactly)",
 "Tests check a few literals.",["constexpr_math/convolve.h","constexpr_math/poly.h"],[("convolve_single index ranges","constexpr_math/convolve.h"),("poly_rec","constexpr_math/poly.h")],None,["results"])
p("A03","Compile-time complex numbers implement the complex field",
 "Addition, subtraction, negation, multiplication, division (mixed with a real operand where the interface takes one), conjugation, squared magnitude, magnitude, distance, real test, equality and the exponential give the mathematical result for all finite operands that do not overflow, exactly whenever all intermediate values are representable. The element-wise forms on vectors agree with the scalar ones.",
 ["inputs"],"all operand values; exact on Gaussian integers",
 "Tests check single literals per operator.",["constexpr_math/complex.h","constexpr_math/functions.h"],[("operator definitions","constexpr_math/complex.h")],None,["results"])
p("A04","Text forms of the mathematical types are exact",
 "Writing a value to a stream gives exactly one text: complex numbers as real part, sign, imaginary part and j; vectors and arrays of any length and nesting as their elements' texts in order, in brackets and separated by a comma and a space; sections as {b=.., a=..}, zero/pole/gain descriptions as {zeros=.., poles=.., gain=..} and fixed-point numbers as value and raw value. The stream is returned and its formatting state is unchanged.",
 ["inputs","configurations"],"all element types with a text of their own, all lengths and nestings",
 "Nothing tests it.",["ostream_ops.h"],[("stream operators","ostream_ops.h")],None,["text written"])
p("E01","Elementary functions and pi are right in constant expressions and at run time",
 "The elementary functions the library exports (rounding, remainder, sign, minimum and maximum, roots, powers, exponentials, logarithms, trigonometric and hyperbolic functions, their inverses, gamma) and pi can be used in constant expressions (the logarithm of gamma excepted) for float, double and long double, under every supported language standard (C++11 included), and have the same value as at run time. Pi is the nearest value of its type; rounding, remainder, selection and sign functions and roots of squares are exact, the minimum and maximum return their first argument if neither is smaller; the others agree with the mathematical function to about the precision of the type, at tiny arguments too.",
 ["inputs","configurations"],"all arguments in the functions' domains, all floating-point types, all language standards",
 "Tests check a few values of a few functions in double, in one language standard.",["constexpr_math/functions.h","constexpr_math/constants.h"],[("fallbacks for older standards","constexpr_math/functions.h"),("digits of pi","constexpr_math/constants.h")],None,["results"])
SG=["signal/sos.h","signal/poly.h","signal/detail/filter.h"]
p("S01","A second-order-section filter computes its difference equations",
 "For every input sequence, each output of a section filter instance is the input sent through the sections in order, each section computing y[n] = b0 x[n] + b1 x[n-1] + b2 x[n-2] - a1 y[n-1] - a2 y[n-2] from zero initial history with its published coefficients. Instances of one design are independent of each other, and filtering never changes the design.",
 ["histories","inputs","configurations"],"all input sequences, orders, coefficient values, sample types and interleavings of instances",
 "Tests filter fixed signals with floating tolerances for one set of designs.",SG,[("transposed direct form II in section filter, filter_chain","signal/sos.h")],[("y1,y2 per section","delayed partial sums","signal/sos.h")],["outputs"])
p("S02","A direct-form filter computes its difference equation",
 "For every input sequence, each output of a polynomial-form filter instance satisfies y[n] = sum b_k x[n-k] - sum_{k>=1} a_k y[n-k] from zero initial history with its published coefficients, for every order from 1 up. Instances of one design are independent of each other, and filtering never changes the design.",
 ["histories","inputs","configurations"],"all input sequences, orders, coefficient values, sample types and interleavings of instances",
 "Tests filter fixed signals for few orders; each order expands different recursion.",SG,[("poly_df2t_update recursion","signal/detail/filter.h"),("poly_design::filter","signal/poly.h")],[("state array","delayed partial sums","signal/poly.h")],["outputs"])
p("S03","Converting zeros and poles to a filter form keeps the transfer function",
 "For every zero/pole/gain description closed under conjugation, given in any order, both filter forms realise exactly its transfer function: the product of the section polynomials (or the single polynomials) equals gain times the zero polynomial and the pole polynomial. Each section has real coefficients from a conjugate pair or two real roots (odd orders padded with roots at the origin); the gain is applied once, in the first section or (positive gains) spread as equal factors, as requested.",
 ["inputs","configurations"],"every conjugate-closed arrangement of zeros and poles in any order, every order, both gain modes",
 "Tests use the library's own prototypes only, where zeros all coincide and at most one pole is real.",SG,[("zpk_to_sos pairing steps, even()","signal/detail/filter.h"),("gain handling","signal/sos.h")],None,["published section and polynomial coefficients"])
p("S04","Lowpass and highpass designs are the bilinear image of the prototype",
 "For any stable analog prototype (without a zero at the origin for highpass), any sample rate and cut-off below half of it, the lowpass (highpass) design is the prototype with s replaced by (1/w)(z-1)/(z+1) (by w (z+1)/(z-1)), w = tan(pi f/fs): poles, zeros and gain map accordingly, missing zeros going to z=-1 (z=1). It depends on f and fs only through their ratio.",
 ["inputs","configurations"],"all prototypes (zeros no more than poles, any gain), orders, sample rates and cut-offs",
 "Tests use one fs/f pair and standard prototypes.",["signal/filter.h","signal/detail/filter.h"],[("warp_frequency, lowpass_zpk, highpass_zpk, bilinear_zpk","signal/detail/filter.h")],None,["coefficients of the designs"])
p("S05","Filter prototypes have exactly the poles and zeros of their family",
 "For every order the Butterworth, Chebyshev I, Chebyshev II and Bessel prototypes have as poles all left-half-plane roots, each once, of 1+(-1)^n s^2n, of the ripple-dependent Chebyshev equations, and of the delay-normalised (unit constant term) reverse Bessel polynomial respectively; Chebyshev II has all its finite imaginary zeros and the others none. Gains give the family's DC gain: 1, except minus the ripple in dB for even Chebyshev I.",
 ["inputs","configurations"],"all orders (Bessel: all tabulated), ripple values and floating types",
 "Tests compare end results for a few orders and ripples.",["signal/butterworth.h","signal/chebyshev.h","signal/bessel.h","signal/detail/bessel_poles.h","signal/detail/filter.h"],[("theta, minus_sinh, butterworth_poles","signal/detail/filter.h"),("bessel_poles tables","signal/detail/bessel_poles.h")],None,["prototype zeros, poles and gain"])
p("S06","Designed filters meet their specification and are stable",
 "For every family, order, ripple, sample rate and cut-off the resulting digital filter in either form is stable, has the family's gain at DC (lowpass) or at half the sample rate (highpass) and its defining gain at the cut-off: 3.01 dB down for Butterworth, the passband ripple down for Chebyshev I, the stopband attenuation for Chebyshev II. Section form and polynomial form of one design, and coefficients computed at compile time and at run time, agree. All of this up to rounding of the value type.",
 ["inputs","configurations"],"all families, orders, ripples, f/fs ratios, both forms",
 "Tests cover one f/fs and some orders.",["signal/filter.h","signal/sos.h","signal/poly.h","signal/chebyshev.h","signal/butterworth.h","signal/bessel.h","signal/detail/filter.h"],[("design pipeline","signal/filter.h")],None,["coefficients of the designs"])
p("S07","Embedded filter descriptions match the design",
 "A filter description emitted into the object file is a self-delimiting record: magic, total length, version 0, structure and value-type codes, the name as a terminated string cut to the field if too long, then exactly the design's coefficients (b0,b1,b2,a1,a2 per section, or b then a) in its value type. A reader following the lengths recovers every emitted record.",
 ["inputs","configurations"],"all structures, value types, orders and name lengths",
 "Nothing tests it.",["signal/debug_filter_coefs.h","signal/detail/debug_filter_coefs.h"],[("filter_debug_header, filter_design_debug","signal/detail/debug_filter_coefs.h")],None,["bytes of the object file section"])
p("S08","The coefficient reader shows every embedded record",
 "For every section of single and double precision records, in any order and with alignment padding between them, the reader script prints for each record in order its name, then every coefficient exactly once with its place (b0,b1,b2,a1,a2 of each numbered section; b[i], then a[i] of polynomials) and exactly its value, whatever bytes names and coefficients contain, also for names that were cut to the field.",
 ["inputs"],"all sections of well-formed records",
 "Nothing tests it.",["@scripts/parse-filter-coefs.py"],[("parse","@scripts/parse-filter-coefs.py")],None,["printed text"])
p("U01","Integer sequences and type lists are exact",
 "Making a sequence of length n yields 0..n-1, a range from b to e yields b..e-1, and the index sequence for a pack has the pack's length, for every n, b<=e and integer type; appending to a type list concatenates in order and transferring it to another template passes exactly those types in order.",
 ["programs","inputs"],"all lengths, bounds and type packs",
 "Tests check a few literals.",["utility/integer_sequence.h","typelist.h"],[("recursive templates","utility/integer_sequence.h")],None,["types"])
p("U02","Back-ported type traits equal their standard counterparts",
 "Conjunction is true exactly when all its members are, short-circuits at the first false member and derives from that (or the last) member; the invocability query is true exactly when calling the callable (by call syntax) with the given arguments is well-formed and its result converts to the requested type, any result being accepted for void.",
 ["programs","configurations"],"all callables, argument lists, result types and language versions from C++11",
 "Tests sample few combinations and, as built here, use the standard library's trait instead of the back-port.",["type_traits/conjunction.h","type_traits/is_invocable.h"],[("conditional chain","type_traits/conjunction.h"),("detection idiom","type_traits/is_invocable.h")],None,["trait values"])
p("P01","Headers work alone, in any order and in programs of many units",
 "Every public header can be included by itself, repeatedly, in any order and combination (the stream operators after the fixed-point library) and in any number of translation units of one program, under any language standard the header supports, optimised or not, with or without exceptions and run-time type information. What a unit includes is all it needs to use the parts declared there, they give the same answers in each of these configurations, and such programs link; designs of the same name may be recorded in several units.",
 ["configurations"],"all include orders, all combinations of units, language standards and options",
 "Tests are programs of a single unit with one order of includes, one standard and one set of options.",["config.h","constexpr_math/functions.h","signal/debug_filter_coefs.h","signal/detail/bessel_poles.h","ostream_ops.h"],[("includes of every header","config.h"),("choice of the elementary functions","constexpr_math/functions.h")],None,["compilation, linking, answers"])
p("P02","No part uses dynamic memory",
 "No operation of any part (buffer adapters, function wrappers, varints into and out of buffers, lock guards, move wrappers, vectors, complex numbers, polynomials, filter design at run time and filtering) takes memory from the heap or returns any, whatever the sizes, orders and histories. Only inserting into a caller's container, output streams and what a raised exception itself needs may.",
 ["histories","inputs"],"all sizes, orders and histories",
 "Tests do not look at the allocator.",["circular_buffer_adapter.h","function.h","signal/sos.h","signal/poly.h","varint.h"],[("placement in the caller's memory","circular_buffer_adapter.h"),("state arrays","signal/poly.h")],None,["calls of the allocator"])
p("N01","Last-digit accuracy of the design arithmetic",
 "Design coefficients are within a few units in the last place of the exact values, at compile time and at run time, for every order.",
 ["inputs"],"all designs","Floating-point rounding analysis.",["constexpr_math/functions.h","signal/detail/filter.h"],[("floating-point evaluation","signal/detail/filter.h")],None,["coefficients"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
