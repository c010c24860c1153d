#!/usr/bin/env python3-vt
"""automut.py OUT HEADER..: makes small mutants of each header (relative to include/embedded), keeps those that compile and
pass the repository's tests for it, and runs the header's checks on them.  Survivors of both are listed in OUT."""
import os, re, shutil, subprocess, sys, tempfile, json, random
from concurrent.futures import ThreadPoolExecutor
T = "/repo/tests/"
SIG = ["signal.cpp"] + ["signal_%s_%s.cpp" % (f, t) for f in ("bessel", "butter", "cheby1", "cheby2") for t in ("double", "float")]
MAP = {
    "circular_buffer_adapter.h": (["circular_buffer_adapter.cpp"], "C01 C02 C03 C04 C05 C06 C07"),
    "detail/circular_buffer_adapter.h": (["circular_buffer_adapter.cpp"], "C06 C03 C07 C01"),
    "function.h": ([], "F01 F02 F03 F04 F05"),
    "varint.h": (["varint.cpp"], "V01 V02 V03 V04"),
    "mutex.h": (["lock_guard.cpp"], "M01"),
    "move_wrapper.h": (["move_wrapper.cpp"], "W01"),
    "typelist.h": (["typelist.cpp"], "U01"),
    "utility/integer_sequence.h": (["integer_sequence.cpp"], "U01"),
    "type_traits/conjunction.h": ([], "U02"), "type_traits/is_invocable.h": ([], "U02 F03"),
    "constexpr_math/vector.h": (["constexpr_vector.cpp", "constexpr_convolve.cpp", "signal.cpp"], "A01 A02"),
    "constexpr_math/complex.h": (["constexpr_complex.cpp", "signal.cpp", "signal_cheby2_double.cpp"], "A03"),
    "constexpr_math/convolve.h": (["constexpr_convolve.cpp", "signal.cpp"], "A02"),
    "constexpr_math/poly.h": (["constexpr_convolve.cpp", "signal.cpp"], "A02"),
    "constexpr_math/functions.h": (["constexpr_complex.cpp", "signal.cpp"], "E01"), "constexpr_math/constants.h": (["signal.cpp"], "E01"),
    "ostream_ops.h": ([], "A04"),
    "signal/sos.h": (SIG, "S01 S03"), "signal/poly.h": (SIG, "S02 S03"),
    "signal/detail/filter.h": (SIG, "S03 S04 S05 S01 S02"),
    "signal/filter.h": (SIG, "S04 S06"), "signal/chebyshev.h": (SIG, "S05 S06"), "signal/butterworth.h": (SIG, "S05 S06"),
    "signal/bessel.h": (SIG, "S05 S06"),
    "signal/detail/debug_filter_coefs.h": ([], "S07"), "signal/debug_filter_coefs.h": ([], "S07"), "preprocessor.h": ([], "S07"),
}
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" \+ ", " - "), (r" - ", " + "),
       (r" \* ", " + "), (r" / ", " * "), (r" && ", " || "), (r" \|\| ", " && "), (r"\+\+", "--"), (r"--", "++"), (r"!(?=[a-z(*])", ""), (r"\b0\b", "1"), (r"\b1\b", "0"),
       (r"\b1\b", "2"), (r"\b2\b", "1"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+= ", "-= "), (r"-= ", "+= "), (r"std::move\(", "("),
       (r"std::forward<[^>]*>\(", "("), (r"noexcept\([^;{]*\)(?=\s*[:{;]|$)", ""), (r" noexcept\b(?!\()", ""), (r" >> ", " << "), (r" << ", " >> "), (r" & ", " | "), (r" \| ", " & "),
       (r" % 2 ", " % 4 "), (r"127|0x7f|0x7F", "63"), (r"128|0x80", "64"), (r"\b7\b", "8"), (r"size\(\)", "capacity()"), (r"first_", "last_"), (r"begin_", "first_"),
       (r"real\(\)", "imag()"), (r"imag\(\)", "real()"), (r"Zn", "Pn"), (r"std::size_t", "unsigned char"), (r"size_type", "unsigned char"), (r"difference_type", "short"),
       (r"sizeof\((\w+)\)", r"(sizeof(\1) + 1)"), (r"zeros", "poles"), (r"\bfs_\b", "1"), (r"value_type\b", "float"), (r"&&(?= \w)", "&"), (r"std::decay", "std::remove_reference")]


def mutants(h):
    src = open("/repo/include/embedded/" + h).read().split("\n")
    start = next(i for i, l in enumerate(src) if "#pragma once" in l) + 1
    incom = False
    seen = set()
    for i in range(start, len(src)):
        l = src[i]
        s = l.strip()
        if s.startswith("/*"):
            incom = True
        if incom or not s or s.startswith(("//", "#", "*", "assert", "template", "using", "namespace", "}", "friend", "static_assert", "typename std::enable_if", "const_iterator", "iterator;", "IncludeZero")) or "= true" in s and "bool" in s:
            if "*/" in s:
                incom = False
            continue
        for a, b in OPS:
            for m in re.finditer(a, l):
                n = l[:m.start()] + m.expand(b) if "\\1" in b else l[:m.start()] + b
                n += l[m.end():]
                if n != l and (i, n) not in seen:
                    seen.add((i, n))
                    yield i, n, src
        if s.endswith(";") and not s.startswith(("return", "constexpr", "static", "auto", "class", "struct", "break")) and (i, "") not in seen and "(" in s or re.match(r"^[\w.>\[\]-]+ [+-]?= .*;$", s) or re.match(r"^(\+\+|--)\w+;$", s):
            seen.add((i, ""))
            yield i, "", src


def run(cmd, t=240):
    try:
        return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    except subprocess.TimeoutExpired:
        return None


def stage1(x):
    h, i, n, src = x
    d = tempfile.mkdtemp(prefix="am", dir="/tmp/am")
    shutil.copytree("/repo/include", d + "/include")
    s = list(src)
    s[i] = n
    open(d + "/include/embedded/" + h, "w").write("\n".join(s))
    tests, checks = MAP[h]
    dead = None
    if not tests:
        open(d + "/t.cpp", "w").write('#include <embedded/%s>\nint main() {}\n' % h)
        r = run("g++ -std=c++17 -fsyntax-only -I/repo/fpm/include -I%s/include %s/t.cpp" % (d, d))
        if r is None or r.returncode:
            dead = "compile"
    objs = []
    for t in tests:
        if dead:
            break
        r = run("nice -n 5 g++ -std=c++17 -O0 -w -I/repo/fpm/include -I%s/include %s%s -o %s/t -lgtest_main -lgtest -lpthread" % (d, T, t, d))
        if r is None or r.returncode:
            dead = "compile"
        else:
            r = run("ulimit -v 4000000; timeout -k 1 40 %s/t" % d, 60)
            if r is None or r.returncode:
                dead = "tests"
    if dead:
        shutil.rmtree(d)
        return None
    return d, h, i, src[i], n


def main():
    out, hs = sys.argv[1], sys.argv[2:]
    os.makedirs("/tmp/am", exist_ok=True)
    limit = int(os.environ.get("LIMIT", "100000"))
    log = open(out, "a")
    for h in hs:
        ms = [(h,) + m for m in mutants(h)]
        random.Random(1).shuffle(ms)
        ms = ms[:limit]
        with ThreadPoolExecutor(8) as ex:
            alive = [r for r in ex.map(stage1, ms) if r]
        print("%s: %d mutants, %d pass the tests" % (h, len(ms), len(alive)), file=log, flush=True)

        def stage2(a):
            d, h, i, old, new = a
            for c in MAP[h][1].split():
                q = run("nice -n 5 env VERIF_REPO=%s VERIF_ONCE=1 VERIF_OUT=%s/o python3-vt /verif/tools/crun.py %s" % (d, d, c), 900)
                if q is None or q.returncode:
                    break
            else:
                c = None
            shutil.rmtree(d)
            return c, i, old, new
        with ThreadPoolExecutor(int(os.environ.get("PAR", "3"))) as ex:
            for c, i, old, new in ex.map(stage2, alive):
                print("%s %s:%d\n   - %s\n   + %s" % ("SURVIVES" if c is None else "caught by " + c, h, i + 1, old.strip(), new.strip()), file=log, flush=True)


main()
