"""Checks S01..S07: filters and filter designs against Filter.tla, Transfer.tla, Families.tla and FilterRecord.tla."""
import itertools, json, os, random, re, struct
from fractions import Fraction
from vlib import Violation, CheckError, HARNESS

TCFG = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
P = 46337
WILD = 100000007          # stands for a value that is not the whole number it has to be, or far too large
GXX = ["asan", "o2", "c11", "c14", "c20", "o3", "dbg", "emb", "asan20"]


def hexval(s):
    """exact value of a %La string; None when not finite"""
    if not isinstance(s, str):
        return Fraction(s)
    m = re.match(r"(-?)0x([0-9a-f]+)\.?([0-9a-f]*)p([+-]\d+)$", s)
    if not m:
        return None
    v = Fraction(int(m.group(2) + m.group(3), 16), 16 ** len(m.group(3))) * Fraction(2) ** int(m.group(4))
    return -v if m.group(1) else v


def whole(s, scale=1, tol=0, limit=10 ** 8):
    """the integer a logged number times scale has to be"""
    v = hexval(s)
    if v is None:
        return WILD
    v *= scale
    r = round(v)
    if abs(v - r) > tol or abs(r) >= limit:
        return WILD
    return r


def deep(f, x):
    return [deep(f, y) for y in x] if isinstance(x, list) else f(x)


# ---- zero/pole/gain descriptions with Gaussian integer roots
def gauss(rng, n, r, nreal=None, pool=None):
    """n Gaussian integers closed under conjugation, in random order"""
    if nreal is None:
        nreal = rng.randrange(n % 2, n + 1, 2)
    out = []
    while len(out) < nreal:
        out.append((rng.choice(pool or range(-r, r + 1)), 0))
    while len(out) < n:
        a, b = rng.randint(-r, r), rng.randint(1, r)
        out += [(a, b), (a, -b)]
    rng.shuffle(out)
    return out


def cvec(zs, T="double", rt=False, den=1):
    w = (lambda x: "L<%s>(%d)%s" % (T, x, "" if den == 1 else "/%d" % den)) if rt else (
        lambda x: "%s(%d)%s" % (T, x, "" if den == 1 else "/%d" % den))
    return "vector<complex<%s>, %d>{%s}" % (T, len(zs), ", ".join("complex<%s>(%s, %s)" % (T, w(a), w(b)) for a, b in zs))


def zpkexpr(z, p, k, T="double", rt=False, den=1):
    n = len(p)
    return "es::iirfilter<%s>::design<%d>(es::iirfilter<%s>::design<%d>::zpk_value(%s, %s, %s))" % (
        T, n, T, n, cvec(z, T, rt, den), cvec(p, T, rt, den), ("L<%s>(%s)" if rt else "%s(%s)") % (T, k))


def product(zs):
    """coefficients of the product of (x - r)"""
    c = [(1, 0)]
    for a, b in zs:
        d = c + [(0, 0)]
        for i, (u, v) in enumerate(c):
            d[i + 1] = (d[i + 1][0] - (a * u - b * v), d[i + 1][1] - (a * v + b * u))
        c = d
    return [x[0] for x in c]


def dense(rng, n):
    """n Gaussian integers closed under conjugation, whose polynomial has moderate coefficients and hardly a zero among them"""
    best = None
    for _ in range(200):
        zs = gauss(rng, n, 1, None, [-1, -1, -1, 1]) if rng.random() < .5 else [(-1, 0)] * (n - 4) + gauss(rng, 4, 1, None, [1, 2, -2])
        c = product(zs)
        if max(map(abs, c)) < 10 ** 14 and (best is None or c.count(0) < best[0]):
            best = (c.count(0), zs)
    zs = best[1] if best else [(-1, 0)] * n
    rng.shuffle(zs)
    return zs


# ---- S01, S02: running filters
def filter_designs(ctx, rng, form, F, n, part=0):
    """C++ expressions of designs whose coefficients are whole numbers"""
    res = []
    long_orders = list(range(8, 34)) + random.Random("very/%s" % ctx.seed).sample(range(34, 48), 14 if ctx.thorough else 4)
    random.Random("orders%s" % ctx.seed).shuffle(long_orders)
    long_orders = (long_orders * 40)[part * ((n + 2) // 3):]
    for k in range(n):
        if form == "sos" and k % 5 == 4 and k % 3 != 2:
            z, p = gauss(rng, 2, 100 if F == "Zp" else 2), gauss(rng, 2, 100) if F == "Zp" else rng.choice([[(1, 0), (-1, 0)], [(0, 1), (0, -1)], [(0, 0), (1, 0)]])
            res.append("es::sos_section<%s>(%s, %s, %d.0)" % (F, cvec(z), cvec(p), rng.randint(1, 50) if F == "Zp" else 2))
            continue
        o = 1 + k % (9 if ctx.thorough else 7) if F == "Zp" else 1 + k % 4
        if F == "Zp" and k % 3 == 2:
            o = long_orders.pop(0)
            if form == "poly":
                z, p = dense(rng, o), dense(rng, o)
                res.append("%s.%s<%s>()" % (zpkexpr(z, p, rng.choice([1, 2, 3, "3/4.0"])), form, F))
                continue
        if F == "Zp":
            r = 100 if form == "sos" else max(2, 100 // (o * o))
            z, p = gauss(rng, o, r), gauss(rng, o, r)
            # a gain below one: the conversion to whole samples makes some published coefficients zero
            g = rng.randint(1, 50) if rng.random() < .7 else "%d/%d.0" % (rng.randint(1, 9), rng.choice([8, 16, 64]))
        else:
            z = gauss(rng, o, 1)
            p = [(0, 0), (-1, 0), (1, 0)][:o] if o % 2 or rng.random() < .5 else [(0, 1), (0, -1)] + [(0, 0), (-1, 0)]
            p = p[:o] if len(p) >= o else p + [(0, 0)] * (o - len(p))
            g = rng.randint(1, 3)
        res.append("%s.%s<%s>()" % (zpkexpr(z, p, g), form, F))
    return res


# samples are whole multiples of these powers of two: the equations are linear, so all are exact
SCALES = {"Zp": [0], "double": [0, 0, 0, -20, -60, -200, -600, -1000, -1060, -1074, 40, 600, 950],
          "float": [0, 0, 0, -20, -40, -80, -120, -140, -149, 20, 60, 90], "ld": [0, 0, 0, -60, -1100, -9000, -16400, 40, 1100, 9000, 16300]}


def filter_script(rng, nd, steps, F, short):
    """a history: instances of the designs made, fed, copied and destroyed in any interleaving"""
    out = ["d %d" % d for d in range(nd)]
    live, fed, kind = {}, {}, {}
    for _ in range(steps):
        q = rng.random()
        if not live or q < .06 and len(live) < 12:
            i = rng.choice([i for i in range(12) if i not in live])
            d = rng.randrange(nd)
            live[i], fed[i], kind[i] = d, 0, rng.randrange(3)
            out.append("n %d %d %d %d" % (i, d, kind[i], rng.choice(SCALES[F])))
        elif q < .10 and len(live) < 12:
            j = rng.choice(list(live))
            i = rng.choice([i for i in range(12) if i not in live])
            live[i], fed[i], kind[i] = live[j], fed[j], kind[j]
            out.append("c %d %d" % (i, j))
        elif q < .11 and len(live) > 2:
            i = rng.choice(list(live))
            same = [j for j in live if (live[j], kind[j]) == (live[i], kind[i])]
            j = rng.choice(same)
            fed[i] = fed[j]
            out.append("a %d %d" % (i, j))
        elif q < .12:
            i = rng.choice(list(live))
            del live[i]
            out.append("x %d" % i)
        elif q < .13:
            out.append("d %d" % rng.randrange(nd))
        else:
            i = rng.choice(list(live))
            if short and fed[i] >= short:
                continue
            fed[i] += 1
            x = rng.choice([0, 1, P - 1, rng.randrange(P)]) if F == "Zp" else rng.choice([-3, -1, 0, 1, 2, 5])
            out.append("f %d %d" % (i, x))
    out += ["d %d" % d for d in range(nd)]
    return "\n".join(out) + "\n"


def filters(form):
    def fn(ctx):
        # the specification: all small filters, histories and interleavings
        base = "SPECIFICATION Spec\nCONSTANTS P = %d\n Stages = %d\n Ord = %d\n NInst = %d\nINVARIANT Agree\nPROPERTIES Independent DesignKept\nCHECK_DEADLOCK FALSE\n"
        cfgs = [(3, 1, 2, 1), (2, 2, 2, 1), (2, 1, 1, 2)] if form == "sos" else [(3, 1, 1, 1), (3, 1, 2, 1), (2, 1, 3, 1), (2, 1, 1, 2)]
        if ctx.thorough:
            cfgs += [(2, 1, 2, 2)] if form == "sos" else [(2, 1, 4, 1), (2, 1, 2, 2)]
        for c in cfgs:
            ctx.model_check("FilterMC", base % c)
        jobs = []
        vs = GXX if ctx.thorough else ["asan", "o2", "c11", "c20"]
        for n, v in enumerate(vs):
            for F in ("Zp", "double", "float", "ld"):
                if not ctx.thorough and F != "Zp" and (n + len(F)) % 2:
                    continue
                for rep in range(2 if ctx.thorough and F == "Zp" else 1):
                    jobs.append((v, F, rep, sum(1 for j in jobs if j[1] == F)))

        def one(job):
            v, F, rep, part = job
            rng = random.Random("%s/%s/%s/%s/%d" % (ctx.prop, ctx.seed, v, F, rep))
            ds = filter_designs(ctx, rng, form, F, 21 if F == "Zp" else 10, part)
            src = '#include "sig.h"\nint main() {\n  std::vector<AnyDesign*> ds;\n'
            for d in ds:
                src += "  ds.push_back(des(%s));\n" % d
            src += "  return run_filters(ds);\n}\n"
            name = "flt_%s_%s_%d" % (v, F, rep)
            exe = ctx.compile_one(ctx.write(name + ".cpp", src), v)
            script = filter_script(rng, len(ds), (6000 if ctx.thorough else 1500) if F == "Zp" else 500, F, 0 if F == "Zp" else 9)
            lines = ctx.drive(exe, script, label="%s %s" % (v, F))
            ev = []
            for l in lines:
                e = json.loads(l)
                if e["op"] == "design":
                    e["c"] = deep(whole, e["c"])
                elif e["op"] == "feed":
                    e["y"] = whole(e["y"])
                ev.append(e)
            want = sum(1 for l in script.splitlines() if l[0] in "dncfa")
            if len(ev) != want:
                raise CheckError("%d events for %d commands" % (len(ev), want))
            ctx.add("designs_run", len(ds))
            ctx.add("feeds", sum(1 for e in ev if e["op"] == "feed"))
            ctx.sample({"variant": v, "sample_type": F, "event": ev[len(ev) // 2]})
            t = ctx.write(name + ".ndjson", "".join(json.dumps(e) + "\n" for e in ev))
            ctx.validate("FilterTrace", TCFG + "CONSTANTS P = %d\n Sections = %s\n" % (
                P if F == "Zp" else 0, "TRUE" if form == "sos" else "FALSE"), t, len(ev), label="%s %s" % (v, F),
                files={"program.cpp": src, "script.txt": script})
            ctx.add("traces_validated_against_impl")
        ctx.pmap(one, jobs)
        ctx.assumptions += ["g++ only (clang needs the gcem submodule, which is not in the repository)",
                            "sample types: residues modulo 46337 (exact, any input), and double/float/long double on whole numbers"]
    return fn



# ---- S03: filter forms of zero/pole/gain descriptions
def arrangements(n, roots):
    """all sequences of n roots closed under conjugation"""
    for s in itertools.product(roots, repeat=n):
        if all(s.count(r) == s.count((r[0], -r[1])) for r in s):
            yield list(s)


UNIT = [(0, 0), (1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (1, -1), (-1, 2), (-1, -2), (2, 0)]
TYPES = [("double", "double"), ("double", "float"), ("ld", "ld"), ("float", "float")]
FORMS = ["poly", "sos", "sos", "sos"]


def zpk_rows(ctx):
    rng = random.Random("%s/%s" % (ctx.prop, ctx.seed))
    rows = []

    def add(z, p, form=None, den=1, ty=None, k=None):
        n = len(p)
        form = form if form is not None else rng.choice([0, 1, 1, 2, 3])
        k = k or rng.randint(1, 4)
        if form == 2:
            k = rng.randint(1, 3) ** ((n + 1) // 2)
        elif rng.random() < .3:
            k = -k
        ty = ty if ty is not None else rng.choice([0, 0, 0, 1, 2, 3])
        if ty == 3 and form == 0 and n > 6:
            ty = 0
        rows.append({"id": len(rows), "n": n, "ty": ty, "form": form, "den": den, "k": k, "z": z, "p": p})
    # every arrangement for the orders 1 and 2, a few partners each for 3 and 4
    for n in (1, 2):
        roots = UNIT if n == 1 or ctx.thorough else UNIT[:8]
        arr = list(arrangements(n, roots))
        for z in arr:
            for p in arr:
                add(z, p)
    for n in (3, 4):
        arr = list(arrangements(n, UNIT[:7] if n == 4 and not ctx.thorough else UNIT[:9]))
        for p in arr:
            if n == 3 or ctx.thorough or rng.random() < .6:
                add(rng.choice(arr), p)
            if rng.random() < .5:
                add(p, rng.choice(arr))
    # seeded random ones: larger orders, repeated roots, roots around the unit circle
    for _ in range(6000 if ctx.thorough else 900):
        n = rng.randint(3, 10 if ctx.thorough or rng.random() < .3 else 8)
        q = rng.random()
        if q < .5:
            r, den = rng.choice([1, 2, 3]), 1
            if n > 8:
                r = 1
        else:
            r, den = 4, 4
            n = min(n, 8)
        z, p = gauss(rng, n, r), gauss(rng, n, r)
        if rng.random() < .2:
            z = [(-den, 0)] * n
        elif rng.random() < .2:
            z = [(den, 0)] * n
        if rng.random() < .1:
            p = list(z)
            rng.shuffle(p)
        if rng.random() < .1:
            p = gauss(rng, n, r, n)
        if rng.random() < .1 and n > 1:
            p = gauss(rng, n, r, n % 2)
        add(z, p, den=den)
    # roots close to the axes, to the unit circle and to each other, as narrow filters have them; checked as residues
    for _ in range(2500 if ctx.thorough else 260):
        den = rng.choice([64, 1024, 65536, 1 << 24])
        n = rng.choice([2, 3, 4, 4, 5, 6, 7, 8])
        bits = {64: 6, 1024: 10, 65536: 16, 1 << 24: 24}[den]
        form, ty = rng.choice([1, 1, 3]), rng.choice([0, 0, 2])
        if n * (bits + 1) <= (50 if ty == 0 else 60) and rng.random() < .5:
            form = 0
        k = rng.randint(1, 4) * rng.choice([1, 1, -1])
        z, p = near(rng, n, den), near(rng, n, den)
        if rng.random() < .3:
            z = [(-den, 0)] * n
        add(z, p, form, den, ty, k)
        rows[-1]["mod"] = rng.choice(MODULI)
    # larger orders, as residues
    for n in LARGE:
        for form in [0, 1, 2, 3] * (12 if ctx.thorough else 3):
            r = rng.choice([1, 2, 3, 40])
            z, p = gauss(rng, n, r), gauss(rng, n, r, *rng.choice([[], [], [n], [n % 2]]))
            if form == 0:   # roots 0, 1, -1, i, -i: the coefficients of the expansion are below 2^n
                z, p = flat(rng, n), flat(rng, n)
            if rng.random() < .3:
                z = [(-1, 0)] * n
            add(z, p, form, 1, 0)
            rows[-1]["mod"] = rng.choice(MODULI)
    return rows


MODULI = [46337, 46327, 46309, 46307]
LARGE = [11, 12, 15, 16, 19, 22, 27, 34]


def flat(rng, n):
    out = [(0, s) for _ in range(rng.randint(0, n // 2)) for s in (1, -1)]
    out += [(rng.choice([0, 1, -1]), 0) for _ in range(n - len(out))]
    rng.shuffle(out)
    return out


def near(rng, n, den):
    """n roots closed under conjugation, in units of 1/den, many of them nearly real or nearly equal"""
    nreal = rng.randrange(n % 2, n + 1, 2) if rng.random() < .7 else n % 2
    base = rng.choice([den, -den, den - den // 8, den // 2, 0])
    d = lambda: rng.choice([0, 1, -1, 2, -3, rng.randint(-den // 16, den // 16)])
    out = [(base + d(), 0) for _ in range(nreal)]
    while len(out) < n:
        a, b = base + d(), max(1, abs(d()))
        out += [(a, b), (a, -b)]
    rng.shuffle(out)
    return out


def zpk_trace(rows, got, tag):
    ev = []
    for r in rows:
        cs = got.get(r["id"], [])
        if len(cs) != 1:
            raise Violation("%s: no coefficients printed for %s" % (tag, r))
        c = cs[0]
        # with the gain spread over the sections the coefficients are only close to whole numbers
        tol = Fraction(1, 10 ** 3) if r["form"] == 2 else 0
        m = r.get("mod", 0)
        if m:
            def res(v, j):
                x = whole(v, r["den"] ** j, tol, 1 << 70)
                return m if x == WILD else x % m     # m itself is not a residue
            red = lambda zs: [[a % m, b % m] for a, b in zs]
            ev.append(dict(r, z=red(r["z"]), p=red(r["p"]), k=r["k"] % m, how=tag,
                           c=[[[res(x, j) for j, x in enumerate(b)], [res(x, j) for j, x in enumerate(a)]] for b, a in c]))
            continue
        sc = lambda v: [whole(x, r["den"] ** j, tol) for j, x in enumerate(v)]
        ev.append(dict(r, c=[[sc(b), sc(a)] for b, a in c], how=tag, mod=0))
    return ev


def forms(ctx):
    small = "SPECIFICATION Spec\nCONSTANTS N = %d\n ReR = {%s}\n ImR = {%s}\nINVARIANTS StillClosed NeverStuck NeverStuckZ Kept Done\nCHECK_DEADLOCK FALSE\n"
    for n, re_, im in [(1, "0,1,2", "0,1,2"), (2, "0,1,2", "0,1,2"), (3, "1,2", "0,1,2")] + ([(4, "1,2", "0,1,2"), (3, "0,1,2", "0,1,2")] if ctx.thorough else []):
        ctx.model_check("Pairing", small % (n, re_, im))
    rows = zpk_rows(ctx)
    ctx.add("descriptions", len(rows))
    script = "".join("%d %d %d %d %d %d %s\n" % (r["id"], r["n"], r["ty"], r["form"], r["den"], r["k"], " ".join(
        "%d %d" % x for x in r["z"] + r["p"])) for r in rows)
    vs = GXX if ctx.thorough else ["asan", "o2", "c11"]
    logs = {}

    def one(v):
        exe = ctx.compile_one(os.path.join(HARNESS, "zpk_driver.cpp"), v)
        got = {}
        for l in ctx.drive(exe, script, label=v):
            e = json.loads(l)
            got.setdefault(e["id"], []).append(e["c"])
        return v, zpk_trace(rows, got, "run time")
    # the same at compile time, for some
    rng = random.Random("ct%s" % ctx.seed)
    some = [r for r in rows if r["n"] <= 8]
    some = rng.sample(some, 400 if ctx.thorough else 60) + [r for r in rows if r["n"] > 8][:4]

    def ct(v):
        part = [r for i, r in enumerate(some)]
        src = '#include "sig.h"\n'
        body = ""
        for r in part:
            T, F = TYPES[r["ty"]]
            m = {0: "poly<%s>()", 1: "sos<%s>(es::sos_gain::first_section)", 2: "sos<%s>(es::sos_gain::distribute)", 3: "sos<%s>()"}[r["form"]] % F
            src += "static constexpr auto d%d = %s.%s;\n" % (r["id"], zpkexpr(r["z"], r["p"], r["k"], T, den=r["den"]), m)
            body += "  show(%d, \"ct\", d%d);\n" % (r["id"], r["id"])
        src += "int main() {\n%s}\n" % body
        exe = ctx.compile_one(ctx.write("ctforms_%s.cpp" % v, src), v)
        got = {}
        for l in ctx.drive(exe, "", label="compile time " + v):
            e = json.loads(l)
            got.setdefault(e["id"], []).append(e["c"])
        return "compile time " + v, zpk_trace(part, got, "compile time")
    jobs = [(one, v) for v in vs] + [(ct, v) for v in (["c11", "c17", "c20"] if ctx.thorough else ["c11"])]
    res = ctx.pmap(lambda j: j[0]("o2" if j[1] == "c17" else j[1]), jobs)
    done = {}
    chunks = []
    for tag, ev in res:
        for i in range(0, len(ev), 1500):
            t = "".join(json.dumps(e) + "\n" for e in ev[i:i + 1500])
            if t not in done:
                done[t] = 1
                chunks.append(("%s %d" % (tag, i), t, len(ev[i:i + 1500])))
        ctx.add("traces_validated_against_impl")
        ctx.sample(ev[len(ev) // 2])

    def val(c):
        f = ctx.write("forms_%s.ndjson" % c[0].replace(" ", "_"), c[1])
        ctx.validate("TransferTrace", TCFG, f, c[2], label=c[0])
    ctx.pmap(val, chunks)
    ctx.assumptions += ["roots are (quarters of) Gaussian integers, so every coefficient is exact; the spread gain is compared within 10^-3",
                        "spreading the gain needs a positive gain"]



# ---- S04, S05, S06: prototypes and designs, as BigFloat numbers
FAMS = ["butterworth", "chebyshev1", "chebyshev2", "bessel"]
DRV = os.path.join(HARNESS, "design_driver.cpp")


def big(v):
    """a Fraction (or logged number) as a BigFloat of Families.tla; [] when not finite"""
    if isinstance(v, str):
        v = hexval(v)
    if v is None:
        return []
    v = Fraction(v)
    if v == 0:
        return [0, [], 0]
    s, v = (-1, -v) if v < 0 else (1, v)
    # the exponent of the leading limb
    e = 0
    n = len(str(v.numerator)) - len(str(v.denominator))
    e = n // 4 - 7
    m = v * Fraction(10) ** (-4 * e)
    m = m.numerator // m.denominator
    while m >= 10 ** 28:
        m //= 10000
        e += 1
    while m and m % 10000 == 0:
        m //= 10000
        e += 1
    limbs = []
    while m:
        limbs.append(m % 10000)
        m //= 10000
    return [s, limbs, e]


def mp():
    import mpmath
    mpmath.mp.dps = 60
    return mpmath


def frac(x):
    """an mpmath number as a Fraction"""
    m = mp()
    return Fraction(str(m.nstr(x, 50)))


def ripple_d(rn, rd):
    m = mp()
    return frac(m.power(10, m.mpf(rn) / rd / 10) - 1)


def sigma(n):
    m = mp()
    return frac(m.root(m.fac2(2 * n - 1), n))


def spec_checks(ctx):
    ctx.overrides()
    ctx.model_check("BigFloatMC", "SPECIFICATION Spec\nCONSTANT Vals = {0,1,9999,12345%s}\nINVARIANTS Exact Ring Squares Powers Close Cut Override\nCHECK_DEADLOCK FALSE\n" % (
        ",7,10000,99999999" if ctx.thorough else ""))
    ctx.model_check("FamiliesMC", "SPECIFICATION Spec\nCONSTANTS Orders={1,2,3,4,5,6,9,12}\n Pts={2,3,5}\n"
                    "INVARIANTS Chebyshev Homogeneous AtJ BesselRatio Roots\nCHECK_DEADLOCK FALSE\n")


def run_design(ctx, v, dt, ct, lo, hi, images, proto, script, tag):
    if not script:
        return {}
    exe = ctx.compile_one(DRV, v, "-DDT=%s -DCT=%s -DNLO=%d -DNHI=%d -DIMAGES=%d -DPROTO_ONLY=%d -DOWN_RIPPLE=%d" % (
        dt.replace(" ", ""), ct, lo, hi, images, proto, dt != "double"), out=ctx.path("design_" + tag))
    got = {}
    for l in ctx.drive(exe, script, label=tag, timeout=600):
        e = json.loads(l)
        got.setdefault(e["id"], []).append(e)
    return got


def check_events(ctx, events, per=None, cost=None):
    """validates events in parallel chunks of about equal cost"""
    cost = cost or (lambda e: e["n"] ** 2)
    order = sorted(range(len(events)), key=lambda i: -cost(events[i]))
    nb = max(1, min(len(events), per or 8))
    bins = [[0, []] for _ in range(nb)]
    for i in order:
        b = min(bins, key=lambda b: b[0])
        b[0] += cost(events[i]) + 1
        b[1].append(events[i])

    def val(x):
        k, evs = x
        f = ctx.write("ev_%s_%d.ndjson" % (ctx.prop, k), "".join(json.dumps(e) + "\n" for e in evs))
        ctx.validate("DesignTrace", TCFG, f, len(evs), label="%s part %d" % (ctx.prop, k), timeout=800, context=0)
        ctx.add("traces_validated_against_impl")
    ctx.pmap(val, [(k, b[1]) for k, b in enumerate(bins) if b[1]])


PREC = {"float": (3, 2), "double": (9, 7), "ld": (9, 7)}       # digits for prototypes, for designs


def cbig(r):
    return [[big(a), big(b)] for a, b in r]


def any_ripple(rng, fam, exact=True):
    """a ripple (attenuation) in dB as a fraction; without exact, one whose D survives single precision"""
    rd = rng.choice([1, 2, 5, 10, 20, 100])
    lo, hi = (Fraction(1, 20) if not exact else Fraction(1, 200), 12) if fam == 1 else (Fraction(1), 110 if exact else 70)
    x = Fraction(rng.randint(int(lo * rd) + 1, int(hi * rd)) if fam == 2 or rng.randrange(2) else rng.randint(int(lo * rd) + 1, int(lo * rd) + rd), rd)
    return x.numerator, x.denominator


def proto_rows(ctx):
    rng = random.Random("%s/%s" % (ctx.prop, ctx.seed))
    rows = []
    rip = {1: [(1, 1), (1, 2), (3, 1), (10, 1), (1, 10), (2, 1)], 2: [(20, 1), (40, 1), (60, 1), (10, 1), (81, 2), (3, 1)]}
    far = {1: [(1, 1000), (1, 200), (1, 50), (25, 1)], 2: [(100, 1), (120, 1), (1, 2), (1, 10)]}
    hi = 40
    for T in ("double", "float", "ld"):
        for n in range(1, hi + 1):
            full = ctx.thorough or n <= 12
            if T == "float":
                if n > 12 or not ctx.thorough and n % 3 != 1:
                    continue
            elif T == "ld" and not ctx.thorough and n % 4 != 2:
                continue
            if T == "double" or full:
                if full or n % 5 == 0 or n % 2 and T == "double":
                    rows.append({"fam": 0, "n": n, "r": (0, 1), "T": T})
            for fam in (1, 2):
                rr = rip[fam] if ctx.thorough and n <= 16 else rng.sample(rip[fam], 2 if n <= 8 and T == "double" else 1)
                if not full and n % 8 and not (n % 2 and T == "double"):
                    continue
                rr = rr + [any_ripple(rng, fam, T != "float")]
                if T != "float" and n <= 16:
                    rr.append(rng.choice(far[fam]))
                for r in rr:
                    rows.append({"fam": fam, "n": n, "r": r, "T": T})
                if T != "double":
                    rows.append({"fam": fam, "n": n, "r": rng.choice(rip[fam]), "T": T, "own": 1})
        if T != "float":
            for n in range(1, 101):
                if T == "double" or ctx.thorough or n in (2, 7):
                    rows.append({"fam": 3, "n": n, "r": (0, 1), "T": T})
    for i, r in enumerate(rows):
        r["id"] = i
    return rows


def proto_event(r, e, how):
    D = ripple_d(*r["r"]) if r["fam"] in (1, 2) else Fraction(0)
    return {"op": "prototype", "fam": FAMS[r["fam"]], "n": r["n"], "T": r["T"], "how": how, "d": PREC[r["T"]][0], "D": big(D),
            "rn": r["r"][0], "rd": r["r"][1], "z": cbig(e["z"]), "p": cbig(e["p"]), "k": big(e["k"])}


def prototypes(ctx):
    spec_checks(ctx)
    rows = proto_rows(ctx)
    vs = ["o2", "c11", "emb", "dbg"] if ctx.thorough else ["o2"]
    events, seen = [], set()
    jobs = []
    for v in vs:
        for T in ("double", "float", "ld"):
            mine = [r for r in rows if r["T"] == T]
            for proto, lo, hi, part in ((1, 1, 40, [r for r in mine if r["fam"] != 3]), (2, 1, 100, [r for r in mine if r["fam"] == 3])):
                sc = "".join("p %d %d %d %.17g\n" % (r["id"], r["n"], r["fam"] + 3 * r.get("own", 0), r["r"][0] / r["r"][1]) for r in part)
                jobs.append((v, T, lo, hi, proto, sc, part))

    def one(j):
        v, T, lo, hi, proto, sc, part = j
        tag = "%s_%s_%d" % (v, T, proto)
        got = run_design(ctx, v, T, T, lo, hi, 0, proto, sc, tag)
        return tag, part, got
    # at compile time
    rng = random.Random("ct/%s" % ctx.seed)
    some = [r for r in rows if r["T"] == "double" and (r["n"] <= 8 or r["fam"] == 0 and r["n"] <= 20 or r["fam"] == 3)]
    some = rng.sample(some, min(len(some), 150 if ctx.thorough else 40))

    def ct(v):
        src, body = '#include "sig.h"\n', ""
        for r in some:
            c = ["es::butterworth<%d>()", "es::chebyshev1<%d>(%s)", "es::chebyshev2<%d>(%s)", "es::bessel<%d>()"][r["fam"]]
            c = c % (r["n"], "%.17g" % (r["r"][0] / r["r"][1])) if r["fam"] in (1, 2) else c % r["n"]
            src += "static constexpr auto z%d = %s.spec<double>().zpk();\n" % (r["id"], c)
            body += "  showzpk(%d, \"ct\", z%d);\n" % (r["id"], r["id"])
        exe = ctx.compile_one(ctx.write("ctproto_%s.cpp" % v, src + "int main() {\n%s}\n" % body), v)
        got = {}
        for l in ctx.drive(exe, "", label="compile time " + v):
            e = json.loads(l)
            got.setdefault(e["id"], []).append(e)
        return "compile time " + v, some, got
    for tag, part, got in ctx.pmap(lambda j: ct(j[1]) if j[0] == "ct" else one(j[1]), [("rt", j) for j in jobs if j[5]] + [
            ("ct", v) for v in (["c11", "o2", "c20"] if ctx.thorough else ["c11"])]):
        for r in part:
            es_ = got.get(r["id"], [])
            if len(es_) != 1:
                raise Violation("%s: no prototype printed for %s" % (tag, r))
            key = json.dumps([es_[0]["z"], es_[0]["p"], es_[0]["k"], r["fam"], r["r"], r["T"]])
            if key not in seen:
                seen.add(key)
                events.append(proto_event(r, es_[0], tag))
    ctx.add("prototypes", len(events))
    ctx.sample({k: events[3][k] for k in ("fam", "n", "T", "rn", "rd", "how")})
    check_events(ctx, events)
    ctx.assumptions += ["relative residuals below 10^-9 (double, long double) or 10^-3 (float) count as exact",
                        "orders up to 40 (Bessel: all 100 of the table)"]


def any_rate(rng):
    """a sampling rate: usual ones, and any number"""
    return rng.choice([1, 2, 1000, 44100, 0.125, 48000, 3.7, 1e6, 6.283185307179586, 10 ** rng.uniform(-4, 9), 10 ** rng.uniform(0, 5)])


def image_rows(ctx):
    rng = random.Random("%s/%s" % (ctx.prop, ctx.seed))
    rows = []
    while len(rows) < (2500 if ctx.thorough else 420):
        n = rng.choice([1, 1, 2, 2, 3, 3, 4, 4, 5, 6])
        m = rng.randint(0, n)
        P_, Q_ = rng.choice([(1, 1), (1, 1), (1, 2), (2, 1), (1, 3), (3, 2), (1, 4), (5, 1), (1, 20), (3, 4)] + ([(20, 1), (1, 100)] if n < 3 else []) + (
            [(1, 3000), (2000, 1), (1, 700)] if n == 1 else []))
        kind = rng.randrange(2)
        r = 1 if n > 4 else 2 if n > 2 else 4
        p = []
        for a, b in gauss(rng, n, r):
            p.append((a, b))
        p = [(-abs(a) - (1 if a == 0 else 0), b) for a, b in p]
        # restore the conjugate pairs (real parts were changed alike for both members)
        z = gauss(rng, m, r)
        if kind == 1:
            z = [(a if (a, b) != (0, 0) else rng.choice([-1, 1, 2]), b) for a, b in z]
        k = rng.choice([-3, -2, -1, 1, 2, 3])
        bound = abs(k)
        for a, b in p:
            bound *= 2 * (max(P_, Q_) * (abs(a) + abs(b)) + max(P_, Q_))
        if bound > 5 * 10 ** 8:
            continue
        T, F = rng.choice([("double", "double")] * 5 + [("double", "float"), ("ld", "ld"), ("float", "float")])
        form = rng.choice([0, 1, 1, 2])
        # spreading takes a root of the gain of the resulting digital filter: keep it positive
        if form == 2:
            g = Fraction(k)
            t = Fraction(P_, Q_)
            w = Fraction(1)
            num, den = complex(k), complex(1)
            for a, b in p:
                den *= (1 - float(t) * complex(a, b)) if kind == 0 else (float(t) - complex(a, b))
            for i in range(n):
                if i < m:
                    num *= (1 - float(t) * complex(*z[i])) if kind == 0 else (float(t) - complex(*z[i]))
                else:
                    num *= float(t) if kind == 0 else 1
            if abs(den) < 1e-9 or (num / den).real <= 1e-6:
                form = 1
        if T == "float" and n > 4:
            continue
        fs = any_rate(rng)
        lead = complex(1)
        for a, b in p:
            lead *= complex(Q_ - P_ * a, -P_ * b) if kind == 0 else complex(P_ - Q_ * a, -Q_ * b)
        numlead = complex(k)
        for i in range(n):
            if i < m:
                a, b = z[i]
                numlead *= complex(Q_ - P_ * a, -P_ * b) if kind == 0 else complex(P_ - Q_ * a, -Q_ * b)
            else:
                numlead *= P_ if kind == 0 else Q_
        # a zero at infinity of the z plane: the gain of the monic zero polynomial does not exist
        if abs(numlead) < 0.5:
            continue
        rows.append({"id": len(rows), "n": n, "m": m, "kind": kind, "form": form, "fs": fs, "w": [P_, Q_], "k": k, "z": z, "p": p, "T": T, "F": F})
    return rows


def image_event(r, c, how):
    dp = 3 if "float" in (r["T"], r["F"]) else 9
    return {"op": "image", "n": r["n"], "kind": ["low", "high"][r["kind"]], "form": ["poly", "sos", "sos"][r["form"]], "w": r["w"], "k": r["k"],
            "z": r["z"], "p": r["p"], "fs": str(r["fs"]), "types": [r["T"], r["F"]], "dp": dp, "how": how, "c": deep(big, c)}


def images(ctx):
    spec_checks(ctx)
    rows = image_rows(ctx)
    ctx.add("prototypes", len(rows))
    vs = GXX[1:] if ctx.thorough else ["o2", "c11"]
    jobs = []
    for v in vs:
        for T, F in sorted({(r["T"], r["F"]) for r in rows}):
            if v != vs[0] and not ctx.thorough and T != "double":
                continue
            part = [r for r in rows if (r["T"], r["F"]) == (T, F)]
            sc = "".join("i %d %d %d %d %d %r %d %d %d %s\n" % (r["id"], r["n"], r["m"], r["kind"], r["form"], r["fs"], r["w"][0], r["w"][1], r["k"],
                         " ".join("%d %d" % x for x in r["z"] + r["p"])) for r in part)
            jobs.append((v, T, F, sc, part))
    events, seen = [], set()

    def one(j):
        v, T, F, sc, part = j
        tag = "%s_%s_%s" % (v, T, F)
        return tag, part, run_design(ctx, v, T, F, 1, 6, 1, 0, sc, tag)
    for tag, part, got in ctx.pmap(one, jobs):
        for r in part:
            es_ = got.get(r["id"], [])
            if len(es_) != 1:
                raise Violation("%s: no design printed for %s" % (tag, r))
            key = json.dumps([r["id"], es_[0]["c"]])
            if key not in seen:
                seen.add(key)
                events.append(image_event(r, es_[0]["c"], tag))
    ctx.add("designs", len(events))
    ctx.sample({k: v for k, v in events[5].items() if k != "c"})
    check_events(ctx, events)
    ctx.assumptions += ["cut-offs are chosen with a rational tangent tan(pi f/fs); coefficients are compared within 10^-9 (float: 10^-3) of the sum of their magnitudes",
                        "prototypes have their poles in the left half plane and, for highpass, no zero at the origin"]



def design_rows(ctx):
    rng = random.Random("%s/%s" % (ctx.prop, ctx.seed))
    rows = []

    def add(fam, n, kind, form, w=None, T="double", F="double", r=None):
        exact = T != "float" and F != "float"
        r = r or (any_ripple(rng, fam, exact) if fam in (1, 2) and rng.randrange(2) else rng.choice(
            [(1, 1), (1, 2), (3, 1), (1, 10), (6, 1)] if fam == 1 else [(20, 1), (40, 1), (60, 1), (30, 1), (12, 1)]))
        w = w or rng.choice([(1, 1), (1, 3), (1, 2), (2, 1), (3, 1)] + ([(1, 8), (1, 20), (1, 50), (7, 1), (20, 1)] if exact and form != 0 else []) + (
            [(1, 300), (1, 1500), (400, 1)] if exact and form != 0 and n <= 4 else []))
        k = len(rows)
        rows.append({"id": k, "fam": fam, "n": n, "kind": kind, "form": form, "w": list(w), "T": T, "F": F, "r": r if fam in (1, 2) else (0, 1),
                     "own": int(fam in (1, 2) and T != "double" and rng.randrange(2)),
                     "fs": any_rate(rng)})
        return rows[-1]
    pairs = []
    ns = list(range(1, 13)) + [16, 20, 25]
    if ctx.thorough:
        ns = list(range(1, 26))
    for n in ns:
        for fam in range(4):
            for kind in (0, 1):
                for form in ((1, 2, 2, 1) if ctx.thorough else (rng.choice([1, 1, 2]),)):
                    a = add(fam, n, kind, form)
                    if n <= 12:
                        b = add(fam, n, kind, 0, a["w"], r=a["r"])
                        b["fs"] = a["fs"]
                        pairs.append((a["id"], b["id"]))
                if n <= 5 or ctx.thorough and n <= 8:
                    T, F = rng.choice([("float", "float"), ("double", "float"), ("ld", "ld"), ("ld", "double")] if n <= 5 else [("ld", "ld"), ("ld", "double")])
                    add(fam, n, kind, rng.choice([0, 1, 2]), T=T, F=F)
                    add(fam, n, kind, 0)
    return rows, pairs


def poly_gain_ok(r):
    """the single polynomials are well enough conditioned for the frequency response to be compared"""
    return r["form"] != 0 or r["n"] <= 5 and r["w"] in ([1, 1], [1, 3], [1, 2], [2, 1], [3, 1])


def design_event(ctx, rng, r, c, how):
    w = Fraction(*r["w"])
    low = "float" in (r["T"], r["F"])
    ts, om = [], []
    for q in [Fraction(1), rng.choice([Fraction(1, 2), Fraction(3, 4), Fraction(1, 3)]), rng.choice([Fraction(3, 2), Fraction(2), Fraction(5, 4)]), rng.choice([
            Fraction(9, 10), Fraction(11, 10), Fraction(2, 3)])]:
        t = w * q
        if (r["form"] == 0 or low) and t > 4 or low and q == 2:
            continue
        ts.append([t.numerator, t.denominator])
        om.append(big(q if r["kind"] == 0 else 1 / q))
    D = ripple_d(*r["r"]) if r["fam"] in (1, 2) else Fraction(0)
    return {"op": "design", "fam": FAMS[r["fam"]], "n": r["n"], "kind": ["low", "high"][r["kind"]], "form": ["poly", "sos", "sos"][r["form"]],
            "w": r["w"], "fs": str(r["fs"]), "types": [r["T"], r["F"]], "rn": r["r"][0], "rd": r["r"][1], "D": big(D), "ts": ts, "om": om,
            "sigma": big(sigma(r["n"])), "dp": 2 if low else 7, "how": how, "c": deep(big, c)}


def designs(ctx):
    spec_checks(ctx)
    rng = random.Random("ev/%s" % ctx.seed)
    rows, pairs = design_rows(ctx)
    groups = [(1, 6), (7, 10), (11, 12), (13, 16), (17, 20), (21, 25)]
    vs = ["o2", "c11", "emb", "c20"] if ctx.thorough else ["o2"]
    jobs = []
    for v in vs + ([] if ctx.thorough else ["c11"]):
        for T, F in sorted({(r["T"], r["F"]) for r in rows}):
            for lo, hi in groups:
                if v not in vs and (hi > 6 or T != "double"):
                    continue
                part = [r for r in rows if (r["T"], r["F"]) == (T, F) and lo <= r["n"] <= hi]
                if part:
                    sc = "".join("g %d %d %d %.17g %d %d %r %d %d\n" % (r["id"], r["n"], r["fam"] + 3 * r["own"], r["r"][0] / r["r"][1], r["kind"], r["form"], r["fs"],
                                 r["w"][0], r["w"][1]) for r in part)
                    jobs.append((v, T, F, lo, hi, sc, part))

    def one(j):
        v, T, F, lo, hi, sc, part = j
        tag = "%s_%s_%s_%d" % (v, T, F, lo)
        return tag, part, run_design(ctx, v, T, F, lo, hi, 0, 0, sc, tag)
    # at compile time, with the cut-off and sample rate as literals
    some = [r for r in rows if r["n"] <= 6 and r["T"] == r["F"] == "double"]
    some = rng.sample(some, min(len(some), 120 if ctx.thorough else 30))

    def ct(v):
        m = mp()
        src, body = '#include "sig.h"\n', ""
        for r in some:
            c = ["es::butterworth<%d>()", "es::chebyshev1<%d>(%s)", "es::chebyshev2<%d>(%s)", "es::bessel<%d>()"][r["fam"]]
            c = c % (r["n"], "%.17g" % (r["r"][0] / r["r"][1])) if r["fam"] in (1, 2) else c % r["n"]
            f = float(m.mpf(r["fs"]) * m.atan(m.mpf(r["w"][0]) / r["w"][1]) / m.pi)
            src += "static constexpr auto d%d = es::iirfilter<double>(%r).%s(%s, %r).%s;\n" % (
                r["id"], float(r["fs"]), ["lowpass", "highpass"][r["kind"]], c, f,
                ["poly<double>()", "sos<double>()", "sos<double>(es::sos_gain::distribute)"][r["form"]])
            body += "  show(%d, \"ct\", d%d);\n" % (r["id"], r["id"])
        exe = ctx.compile_one(ctx.write("ctdes_%s.cpp" % v, src + "int main() {\n%s}\n" % body), v)
        got = {}
        for l in ctx.drive(exe, "", label="compile time " + v):
            e = json.loads(l)
            got.setdefault(e["id"], []).append(e)
        return "compile time " + v, some, got
    res = ctx.pmap(lambda j: ct(j[1]) if j[0] == "ct" else one(j[1]), [("rt", j) for j in jobs] + [
        ("ct", v) for v in (["c11", "o2", "c20"] if ctx.thorough else ["c11"])])
    events, seen, first = [], set(), {}
    for tag, part, got in res:
        for r in part:
            es_ = got.get(r["id"], [])
            if len(es_) != 1:
                raise Violation("%s: no design printed for %s" % (tag, r))
            c = es_[0]["c"]
            key = json.dumps([r["id"], c])
            if key in seen:
                continue
            seen.add(key)
            base = {"n": r["n"], "fam": FAMS[r["fam"]], "kind": r["kind"], "row": r["id"], "how": tag}
            if poly_gain_ok(r):
                events.append(design_event(ctx, rng, r, c, tag))
            if r["id"] in first:
                events.append(dict(base, op="equal", c=first[r["id"]], c2=deep(big, c), dp=9))
            else:
                first[r["id"]] = deep(big, c)
    for a, b in pairs:
        r = rows[a]
        events.append({"op": "same", "n": r["n"], "fam": FAMS[r["fam"]], "kind": r["kind"], "w": r["w"], "c": first[a], "c2": first[b], "dp": 9})
    ctx.add("designs", len(rows))
    ctx.sample({k: v for k, v in events[5].items() if k not in ("c", "c2", "om", "sigma", "D")})
    check_events(ctx, events, cost=lambda e: e["n"] * 4)
    ctx.assumptions += ["orders up to 25; cut-offs with rational tan(pi f/fs) between 1/50 and 20; frequency responses compared within a relative 10^-7 (float: 10^-2)",
                        "the frequency response of the single-polynomial form is compared for orders up to 5 only (its coefficients are ill-conditioned beyond); for larger ones it is compared with the section form"]



# ---- S07: descriptions of filters in object files
VALT = {"float": 0, "double": 1, "ld": 2}


def records(ctx):
    ctx.model_check("FilterRecordMC", "SPECIFICATION Spec\nCONSTANTS Magic = <<70,73>>\n NameLen = %d\n MaxRecs = %d\n CoefLens = {0,2}\n Aligns = {1,4}\n"
                    "INVARIANTS RoundTrip Cut\nCHECK_DEADLOCK FALSE\n".replace("Magic = <<70,73>>", "Magic <- SmallMagic") % (
                        (3, 2) if ctx.thorough else (2, 2)))
    rng = random.Random("%s/%s" % (ctx.prop, ctx.seed))
    vs = ["o2", "c11", "dbg", "c14", "c20", "o3", "emb"] if ctx.thorough else ["o2", "c11", "dbg"]
    files = []
    for k in range(40 if ctx.thorough else 12):
        recs = []
        for j in range(rng.choice([1, 1, 2, 4, 7])):
            F = rng.choice(["float", "double", "ld"])
            form = rng.randrange(3)
            n = rng.randint(1, 9) if j != 1 and k % 4 else rng.randint(10, 20)
            low = rng.random() < .5
            c = rng.choice(["es::butterworth<%d>()", "es::chebyshev1<%d>(0.5)", "es::chebyshev2<%d>(40.0)", "es::bessel<%d>()"]) % n
            ln = rng.choice([None, 0, 1, 5, 40, 116, 117, 118, 119, 120, 121, 200])
            name = None if ln is None else "".join(rng.choice("abcFILT XYZ.:(/)=-0189_") for _ in range(ln))
            recs.append((j, F, form, n, "es::iirfilter<double>(1000.0).%s(%s, %.3f)" % (
                "lowpass" if low else "highpass", c, rng.uniform(60, 400)), name))
        files.append(recs)

    def one(job):
        k, v = job
        recs = files[k]
        src = '#include <type_traits>\n#include "sig.h"\n#include <embedded/signal/debug_filter_coefs.h>\n'
        body, names = "", []
        for j, F, form, n, d, name in recs:
            src += "static constexpr auto flt%d = %s.%s;\n" % (j, d, ["poly<%s>()", "sos<%s>()", "sos<%s>(es::sos_gain::distribute)"][form] % F)
            if name is None:
                src += "LIBEMB_DEBUG_FILTER_COEFS(flt%d)\n" % j
                names.append("flt%d (rec.cpp:%d)" % (j, src.count("\n")))
            else:
                src += 'LIBEMB_DEBUG_FILTER_COEFS_NAME(flt%d, "%s")\n' % (j, name)
                names.append(name)
            src = src.replace("_COEFS(flt%d)\n" % j, "_COEFS(flt%d);\n" % j)
            src = src.replace('"%s")\n' % name, '"%s");\n' % name) if name is not None else src
            if form == 0:
                body += "  dump(%d, flt%d.b()); dump(%d, flt%d.a());\n" % (j, j, j, j)
            else:
                body += "  for (std::size_t i = 0; i < flt%d.size(); ++i) { auto const b = flt%d.sos()[i].b(); auto const a = flt%d.sos()[i].a();\n" % (j, j, j)
                body += "    dump(%d, b[0]); dump(%d, b[1]); dump(%d, b[2]); dump(%d, a[1]); dump(%d, a[2]); }\n" % (j, j, j, j, j)
        src += """template <typename T> void dump(int id, T x) {
  unsigned char b[sizeof(T)];
  std::memcpy(b, &x, sizeof x);
  std::printf("{\\"id\\":%d,\\"b\\":[", id);
  for (std::size_t i = 0; i < (sizeof x > 10 ? 10 : sizeof x); ++i) std::printf("%s%d", i ? "," : "", b[i]);
  std::printf("]}\\n");
}
template <typename T, std::size_t N> void dump(int id, vector<T, N> const& v) { for (std::size_t i = 0; i < N; ++i) dump(id, v[i]); }
int main() {
""" + body + "}\n"
        d = ctx.path("rec_%d_%s" % (k, v))
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "rec.cpp")
        with open(f, "w") as fh:
            fh.write(src.replace("__FILE__", "__FILE__"))
        obj = os.path.join(d, "rec.o")
        # __FILE__ shows the path given to the compiler
        ctx.compile_one(f, v, extra="-c -ffile-prefix-map=%s/=" % d, out=obj)
        exe = ctx.compile_one(f, v, extra="-ffile-prefix-map=%s/=" % d, out=os.path.join(d, "rec.bin"))
        vals = {}
        for l in ctx.drive(exe, "", label="records %d %s" % (k, v)):
            e = json.loads(l)
            vals.setdefault(e["id"], []).append(e["b"])
        out = []
        for kind, path in (("object", obj), ("program", exe)):
            b = os.path.join(d, kind + ".section")
            rc, o, e = ctx.run(["objcopy", "--dump-section", ".libemb_filter_coefs=" + b, path, path + ".copy"])
            data = []
            if rc == 0 and os.path.exists(b):
                data = list(open(b, "rb").read())
            elif "not found" not in e and rc != 0 and "can't dump" not in e:
                raise CheckError("objcopy: " + e)
            if kind == "program" and not data:
                continue                  # an unreferenced section may be dropped from a program
            out.append({"kind": kind, "variant": v, "file": k, "bytes": data, "recs": [
                {"s": 1 if form == 0 else 0, "t": VALT[F], "name": [ord(c) for c in names[i]], "v": vals.get(j, [])}
                for i, (j, F, form, n, dd, name) in enumerate(recs)]})
        return out
    res = ctx.pmap(one, [(k, v) for k in range(len(files)) for v in (vs if ctx.thorough else [vs[k % len(vs)]])])
    events = [e for r in res for e in r]
    ctx.add("sections_read", len(events))
    ctx.add("records", sum(len(e["recs"]) for e in events))
    ctx.sample({"kind": events[0]["kind"], "bytes": len(events[0]["bytes"]), "records": len(events[0]["recs"])})

    def val(k):
        evs = events[k::8]
        if evs:
            f = ctx.write("rec_%d.ndjson" % k, "".join(json.dumps(e) + "\n" for e in evs))
            ctx.validate("FilterRecordTrace", TCFG + "CONSTANTS Magic <- FILT\n NameLen = 119\n", f, len(evs), label="records part %d" % k, context=0)
            ctx.add("traces_validated_against_impl")
    ctx.pmap(val, range(8))
    ctx.assumptions += ["sections of x86-64 ELF objects written by g++; designs that are constant expressions"]


# ---- S08: the reader of these descriptions
SECTION_RUNNER = r'''
import contextlib, io, json, os, runpy, sys, tempfile
script = sys.argv[1]
for line in sys.stdin:
    job = json.loads(line)
    with open(job["file"], "wb") as fh:
        fh.write(bytes(job["bytes"]))
    out = io.TextIOWrapper(io.BytesIO(), encoding="utf-8", newline="\n")
    sys.argv = [script, job["file"]]
    err = None
    with contextlib.redirect_stdout(out):
        try:
            runpy.run_path(script, run_name="__main__")
        except BaseException as e:
            if not (isinstance(e, SystemExit) and e.code in (None, 0)):
                err = "%s: %s" % (type(e).__name__, e)
    out.flush()
    print(json.dumps({"text": out.buffer.getvalue().decode("utf-8"), "err": err}), flush=True)
'''
ELF_STUB = r'''
# stands in for pyelftools, which is not installed here: the file is the section itself
class Container(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)
class Section:
    def __init__(self, name, kind, data, off):
        self.name, self._d, self.compressed = name, data, False
        self.data_size, self.data_alignment = len(data), 8
        self.header = Container(sh_name=1, sh_type=kind, sh_flags=2, sh_addr=0, sh_offset=off, sh_size=len(data), sh_link=0, sh_info=0,
                                sh_addralign=8, sh_entsize=0)
    def data(self): return self._d
    def is_null(self): return not self.name
    def __getitem__(self, k): return self.header[k]
    def __eq__(self, o): return isinstance(o, Section) and o.name == self.name and o._d == self._d
    def __hash__(self): return hash(self.name)
class ELFFile:
    little_endian, elfclass, e_ident_raw = True, 64, b"\x7fELF\x02\x01\x01" + bytes(9)
    def __init__(self, fh):
        d = fh.read()
        self.stream = fh
        self.header = Container(e_type="ET_REL", e_machine="EM_X86_64", e_shnum=6, e_ident=Container(EI_CLASS="ELFCLASS64", EI_DATA="ELFDATA2LSB"))
        mk = lambda name, kind, data: Section(name, kind, data, 64)
        self._s = [mk("", "SHT_NULL", b""), mk(".text", "SHT_PROGBITS", b"\xc3FILT" * 3), mk(".libemb_filter_coefs", "SHT_PROGBITS", d),
                   mk(".rodata", "SHT_PROGBITS", b"FILT\0" * 5), mk(".symtab", "SHT_SYMTAB", b""), mk(".strtab", "SHT_STRTAB", b"\0main\0")]
    def __getitem__(self, k): return self.header[k]
    def num_sections(self): return len(self._s)
    def get_section(self, n, type=None): return self._s[n]
    def get_section_index(self, name): return next((i for i, x in enumerate(self._s) if x.name == name), None)
    def get_section_by_name(self, name): return next((x for x in self._s if x.name == name), None)
    def iter_sections(self, type=None): return iter([x for x in self._s if type is None or x["sh_type"] == type])
    def has_dwarf_info(self, strict=False): return False
    def get_machine_arch(self): return "x64"
    def close(self): self.stream.close()
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
'''


def shown_lines(text):
    """the printed lines as events of FilterRecordTextTrace"""
    res = []
    for ln in text.split("\n")[:-1] if text.endswith("\n") else text.split("\n"):
        m = re.match(r"    (\w+|\w\[\d+\]) = (\S+)$|  (\w\[\d+\]) = (\S+)$", ln)
        if m:
            lab, v = (m.group(1), m.group(2)) if m.group(1) else (m.group(3), m.group(4))
            try:
                d = float(v)
                f = list(struct.pack("<f", d)) if abs(d) < 3.4028235e38 else []
                if f and struct.unpack("<f", bytes(f))[0] != d:
                    f = []
                res.append(["coef", lab, f, list(struct.pack("<d", d))])
                continue
            except ValueError:
                pass
        m = re.match(r"  SOS stage (\d+):$", ln)
        if m:
            res.append(["stage", int(m.group(1))])
        elif ln.endswith(":"):
            res.append(["name", list(ln[:-1].encode("utf-8", "surrogateescape"))])
        else:
            res.append(["other", ln])
    return res


def reader(ctx):
    from vlib import REPO
    script = os.path.join(REPO, "scripts", "parse-filter-coefs.py")
    if not os.path.exists(script):
        raise Violation("the reader of filter coefficients is gone: " + script)
    r = ctx.tlc("FilterRecordTextMC", "SPECIFICATION Spec\nCONSTANTS Magic <- SmallMagic\n NameLen = 119\n MaxRecs = 2\n Replay = TRUE\n"
                "INVARIANTS Agrees Complete\nCHECK_DEADLOCK FALSE\n")
    ctx.add("states", r.distinct)
    ctx.add("transitions", r.generated)
    sections = [("model", x["b"]) for x in r.printed()]
    if len(sections) < 1500:
        raise CheckError("only %d sections generated" % len(sections))
    rng = random.Random("%s/%s" % (ctx.prop, ctx.seed))
    if not ctx.thorough:
        sections = rng.sample(sections, 400)
    # sections of real objects
    fam = ["es::butterworth<%d>()", "es::chebyshev1<%d>(0.5)", "es::chebyshev2<%d>(40.0)", "es::bessel<%d>()"]
    alpha = "abcFILT XYZ.:(/)=-0189_" + "\u00e4\u20ac\u03a9"

    def name():
        k = rng.choice([1, 5, 40, 100, 117, 118, 119, 130])
        nm = "F"
        while len((nm + "x").encode()) < k:
            nm += rng.choice(alpha)
        nm = nm.encode()[:118].decode("utf-8", "ignore")
        return nm if len(nm.encode()) <= 118 else "F"
    files = []
    for k in range(24 if ctx.thorough else 6):
        src = '#include "sig.h"\n#include <embedded/signal/debug_filter_coefs.h>\n'
        for j in range(rng.choice([1, 2, 3, 5])):
            n = rng.randint(1, 7) if k % 3 else rng.randint(1, 12)
            src += "static constexpr auto flt%d = es::iirfilter<double>(1000.0).%s(%s, %.3f).%s;\n" % (
                j, rng.choice(["lowpass", "highpass"]), rng.choice(fam) % n, rng.uniform(60, 400),
                rng.choice(["poly<%s>()", "sos<%s>()", "sos<%s>(es::sos_gain::distribute)"]) % rng.choice(["float", "double"]))
            nm = name()
            if rng.random() < .25 or j == 1:
                nm = (rng.choice(["F", "FI", "FIL"]) + rng.choice(["x", "\u00e4", "\u20ac", "\U0001d6fa"]) * 120)[:130]      # cut to the field
            src += 'LIBEMB_DEBUG_FILTER_COEFS_NAME(flt%d, "%s");\n' % (j, nm)
        files.append(src + "int main() {}\n")

    def build(job):
        k, v = job
        obj = ctx.compile_one(ctx.write("rd_%d_%s.cpp" % (k, v), files[k]), v, extra="-c", out=ctx.path("rd_%d_%s.o" % (k, v)))
        b = obj + ".section"
        rc, o, e = ctx.run(["objcopy", "--dump-section", ".libemb_filter_coefs=" + b, obj, obj + ".copy"])
        return ("object %d %s" % (k, v), list(open(b, "rb").read()) if os.path.exists(b) else [])
    vs = ["o2", "c11", "dbg", "c20"] if ctx.thorough else ["o2", "c11"]
    objs = ctx.pmap(build, [(k, v) for k in range(len(files)) for v in (vs if ctx.thorough else [vs[k % 2]])])
    sections += objs
    # several objects after one another, as a linker lays them out
    for _ in range(12):
        whole_, parts = [], rng.sample(objs, min(len(objs), rng.choice([2, 3])))
        for i, (t, b) in enumerate(parts):
            whole_ += b
            if i + 1 < len(parts):
                whole_ += [0] * (-len(whole_) % rng.choice([8, 16, 32]))
        sections.append(("joined " + "; ".join(t for t, b in parts), whole_))
    stub = ctx.path("stub/elftools/elf")
    os.makedirs(stub, exist_ok=True)
    open(ctx.path("stub/elftools/__init__.py"), "w").close()
    open(os.path.join(stub, "__init__.py"), "w").close()
    with open(os.path.join(stub, "elffile.py"), "w") as f:
        f.write(ELF_STUB)
    runner = ctx.write("runner.py", SECTION_RUNNER)

    def part(k):
        mine = sections[k::8]
        rc, o, e = ctx.run(["python3", runner, script], timeout=300, env={"PYTHONPATH": ctx.path("stub"), "PYTHONDONTWRITEBYTECODE": "1"},
                           inp="".join(json.dumps({"file": ctx.path("sec%d.bin" % k), "bytes": b}) + "\n" for t, b in mine).encode())
        lines = [json.loads(l) for l in o.splitlines()]
        if rc != 0 or len(lines) != len(mine):
            raise CheckError("the reader could not be run: " + e[-1500:])
        ev = []
        for (t, b), r in zip(mine, lines):
            if r["err"]:
                raise Violation("the reader stops with an exception on a well-formed section (%s): %s" % (t, r["err"]), {
                    "section.json": json.dumps(b), "printed.txt": r["text"]})
            ev.append({"bytes": b, "lines": shown_lines(r["text"]), "how": t})
        f = ctx.write("rd_%d.ndjson" % k, "".join(json.dumps(x) + "\n" for x in ev))
        ctx.validate("FilterRecordTextTrace", TCFG + "CONSTANTS Magic <- FILT\n NameLen = 119\n", f, len(ev), label="reader part %d" % k, context=0)
        ctx.add("traces_validated_against_impl", len(ev))
        ctx.add("sections_read", len(ev))
        ctx.sample({"section": ev[-1]["how"], "bytes": len(ev[-1]["bytes"]), "lines": ev[-1]["lines"][:2]})
    ctx.pmap(part, range(8))
    ctx.assumptions += ["single and double precision records, little endian; pyelftools is replaced by a stand-in that hands out the section"]


CHECKS = {"S01": ("model_checking", filters("sos")), "S02": ("model_checking", filters("poly")), "S03": ("model_checking", forms),
          "S04": ("model_checking", images), "S05": ("model_checking", prototypes), "S06": ("model_checking", designs),
          "S07": ("model_checking", records), "S08": ("model_checking", reader)}
