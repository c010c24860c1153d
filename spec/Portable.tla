------------------------------ MODULE Portable -------------------------------
(* Programs made of translation units, which include the library's headers   *)
(* in any order and number and then use what these provide.                  *)
EXTENDS Integers, Sequences, FiniteSets

\* headers; the second component: what has to be included before (other libraries)
Headers == <<
  <<"config.h", {}>>, <<"preprocessor.h", {}>>, <<"function.h", {}>>, <<"circular_buffer_adapter.h", {}>>,
  <<"detail/circular_buffer_adapter.h", {}>>, <<"varint.h", {}>>, <<"mutex.h", {}>>, <<"move_wrapper.h", {}>>, <<"typelist.h", {}>>,
  <<"type_traits.h", {}>>, <<"type_traits/conjunction.h", {}>>, <<"type_traits/is_invocable.h", {}>>, <<"utility/integer_sequence.h", {}>>,
  <<"variant.h", {}>>, <<"constexpr_math.h", {}>>, <<"constexpr_math/vector.h", {}>>, <<"constexpr_math/complex.h", {}>>,
  <<"constexpr_math/convolve.h", {}>>, <<"constexpr_math/poly.h", {}>>, <<"constexpr_math/functions.h", {}>>,
  <<"constexpr_math/constants.h", {}>>, <<"signal/filter.h", {}>>, <<"signal/sos.h", {}>>, <<"signal/poly.h", {}>>,
  <<"signal/butterworth.h", {}>>, <<"signal/chebyshev.h", {}>>, <<"signal/bessel.h", {}>>, <<"signal/debug_filter_coefs.h", {}>>,
  <<"signal/detail/filter.h", {}>>, <<"signal/detail/bessel_poles.h", {}>>, <<"signal/detail/debug_filter_coefs.h", {}>>,
  <<"ostream_ops.h", {"fpm/fixed.hpp"}>>, <<"fpm/fixed.hpp", {}>> >>
Names == { Headers[i][1] : i \in DOMAIN Headers }
Requires(h) == Headers[CHOOSE i \in DOMAIN Headers : Headers[i][1] = h][2]
\* headers that can be used with any compiler here (the others need a library that is not there with all but one)
Plain == {"config.h", "preprocessor.h", "function.h", "circular_buffer_adapter.h", "detail/circular_buffer_adapter.h", "varint.h", "mutex.h",
          "move_wrapper.h", "typelist.h", "type_traits.h", "type_traits/conjunction.h", "type_traits/is_invocable.h",
          "utility/integer_sequence.h", "variant.h", "constexpr_math/vector.h", "constexpr_math/convolve.h", "constexpr_math/poly.h",
          "constexpr_math/constants.h"}

\* facilities: any of these sets of headers provides it
Needs == [
  config |-> {{"config.h"}}, names |-> {{"preprocessor.h"}}, function |-> {{"function.h"}}, ring |-> {{"circular_buffer_adapter.h"}},
  varint |-> {{"varint.h"}}, guard |-> {{"mutex.h"}}, mover |-> {{"move_wrapper.h"}}, types |-> {{"typelist.h"}},
  conj |-> {{"type_traits.h"}, {"type_traits/conjunction.h"}}, invocable |-> {{"type_traits.h"}, {"type_traits/is_invocable.h"}},
  sequence |-> {{"utility/integer_sequence.h"}}, variant |-> {{"variant.h"}},
  vector |-> {{"constexpr_math.h"}, {"constexpr_math/vector.h"}}, complex |-> {{"constexpr_math.h"}, {"constexpr_math/complex.h", "constexpr_math/vector.h"}},
  number |-> {{"constexpr_math.h"}, {"constexpr_math/complex.h"}},
  conv |-> {{"constexpr_math.h"}, {"constexpr_math/convolve.h"}}, poly |-> {{"constexpr_math.h"}, {"constexpr_math/poly.h"}},
  elem |-> {{"constexpr_math.h"}, {"constexpr_math/functions.h"}}, pi |-> {{"constexpr_math.h"}, {"constexpr_math/constants.h"}},
  butter |-> {{"signal/filter.h", "signal/butterworth.h"}}, cheby |-> {{"signal/filter.h", "signal/chebyshev.h"}},
  bessel |-> {{"signal/filter.h", "signal/bessel.h"}}, delay |-> {{"signal/filter.h", "signal/bessel.h"}},
  record |-> {{"signal/filter.h", "signal/butterworth.h", "signal/debug_filter_coefs.h"}},
  text |-> {{"ostream_ops.h"}}, sectiontext |-> {{"ostream_ops.h", "signal/filter.h", "signal/butterworth.h"}} ]
Facilities == DOMAIN Needs
Have(s) == { f \in Facilities : \E n \in Needs[f] : n \subseteq s }

\* ---- what using a facility answers; it depends on the configuration only where that is asked for
RECURSIVE Power(_, _)
Power(a, n) == IF n = 0 THEN 1 ELSE a * Power(a, n - 1)
RECURSIVE Sum(_, _)
Sum(g, n) == IF n = 0 THEN 0 ELSE g[n] + Sum(g, n - 1)
Conv(x, y) == [ k \in 1 .. Len(x) + Len(y) - 1 |->
  Sum([ i \in 1 .. Len(x) |-> IF k - i + 1 \in 1 .. Len(y) THEN x[i] * y[k - i + 1] ELSE 0 ], Len(x)) ]
RECURSIVE Expand(_)
Expand(z) == IF z = <<>> THEN <<1>> ELSE Conv(Expand(Tail(z)), <<1, -Head(z)>>)
Times(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
RECURSIVE Codes(_)
Codes(n) == IF n < 128 THEN <<n>> ELSE <<(n % 128) + 128>> \o Codes(n \div 128)
Last4(s) == SubSeq(s, Len(s) - 3, Len(s))
Answer(f, c) ==
  CASE f = "config" -> <<c.exceptions, c.rtti>>
    [] f = "names" -> <<97, 98, 0, 3>>                          \* "ab"; 1 + 2 of two names
    [] f = "function" -> <<10 + 1, 10 + 1 + 2, 10 + 1 + 2 + 3, 1>>
    [] f = "ring" -> Last4(<<1, 2, 3, 4, 5, 6>>) \o <<4, 1>>
    [] f = "varint" -> Codes(300) \o <<2, 1, -2>>
    [] f = "guard" -> <<1, 0, 1, 1>>                            \* locked, unlocked inside; then both
    [] f = "mover" -> <<42, 0>>                                 \* the payload; what is left behind
    [] f = "types" -> <<3>>
    [] f = "conj" -> <<1, 0, 1>>
    [] f = "invocable" -> <<1, 0, 1>>
    [] f = "sequence" -> <<0, 1, 2, 3, 4, 5>>
    [] f = "variant" -> <<7>>
    [] f = "vector" -> <<1, 2, 3, 6, 3>>
    [] f = "complex" -> Times(<<1, 2>>, <<3, -1>>) \o <<1, 2>>
    [] f = "number" -> Times(<<1, 2>>, <<1, -2>>)
    [] f = "conv" -> Conv(<<1, 2, 3>>, <<1, -1>>)
    [] f = "poly" -> Expand(<<1, 2, 3>>)
    [] f = "elem" -> <<Power(2, 10), 12, -3, 2, 5>>
    [] f = "pi" -> <<3141592>>
    [] f \in {"butter", "bessel"} -> <<1000, 1000>>             \* gain at DC, in thousandths, in both forms
    [] f = "delay" -> <<1000>>                      \* the same, designed at run time
    [] f = "cheby" -> <<1000, 1000, 1000, 1000>>
    [] f = "record" -> <<1>>
    [] f = "text" -> <<91, 49, 44, 32, 50, 93, 51, 43, 52, 106, 91, 53, 93>>         \* [1, 2]3+4j[5]
    [] f = "sectiontext" -> <<123, 98, 61, 91>>                 \* {b=[
=============================================================================
