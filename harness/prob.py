"""P21 and P23: the parameter-selection scripts against exact rational arithmetic.
   prob.py DIR p21|p23 --tier T [--shard i/n] [--only CASE]"""
import bisect, sys, os, math, io, itertools, contextlib, types, importlib.util
from fractions import Fraction as F

sys.dont_write_bytecode = True
DIR, MODE = sys.argv[1], sys.argv[2]
opt = dict(zip(sys.argv[3::2], sys.argv[4::2]))
THOROUGH = opt.get("--tier") == "thorough"
SH, NSH = map(int, opt.get("--shard", "0/1").split("/"))
ONLY = opt.get("--only")
stat = dict(states=0, impl_runs=0, compared=0, evaluations=0)
nviol, ncase = 0, 0


def case(*name):
    global ncase, cur
    cur = " ".join(str(x) for x in name)
    ncase += 1
    if ONLY is not None:
        return cur == ONLY
    if ncase % NSH != SH:
        return False
    stat["states"] += 1
    return True


def viol(text):
    global nviol
    nviol += 1
    print("VIOL %s | proba | %s" % (cur, text))
    if nviol >= 5:
        end("ENDED")


def end(w="DONE"):
    for k, v in stat.items():
        print("STAT %s %d" % (k, v))
    print(w)
    sys.exit(0)


def call(f, *a):
    stat["impl_runs"] += 1
    stat["evaluations"] += 1
    try:
        return f(*a)
    except Exception as e:
        viol("raises %s: %s" % (type(e).__name__, e))
        return None


REL = 1e-9


def close(a, b):
    b = float(b)
    return abs(a - b) <= REL * max(abs(b), 1e-30)


def same_law(got, want, floor_=0.0):
    """want: exact dictionary.  Values below floor_ may be missing."""
    stat["compared"] += 1
    if got is None:
        return
    if not isinstance(got, dict):
        return viol("returned %r instead of a law" % type(got))
    for x in set(got) | set(want):
        g, w = got.get(x, 0), want.get(x, 0)
        if float(w) <= floor_ and g == 0:
            continue
        if not close(g, w):
            return viol("probability of %r is %r, exact value %r" % (x, g, float(w)))


def same(g, w, what):
    stat["compared"] += 1
    if g is not None and not close(g, w):
        viol("%s is %r, exact value %r" % (what, g, float(w)))


def conv(A, B, op):
    C = {}
    for a in A:
        for b in B:
            c = op(a, b)
            C[c] = C.get(c, 0) + A[a] * B[b]
    return C


def laws(lo, hi, den):
    """all laws on lo..hi with probabilities that are multiples of 1/den (positive entries only)"""
    n = hi - lo + 1
    for bars in itertools.combinations(range(den + n - 1), n - 1):
        w, prev = [], -1
        for b in bars + (den + n - 1,):
            w.append(b - prev - 1)
            prev = b
        yield {lo + i: F(x, den) for i, x in enumerate(w) if x}


def fl(A):
    return {x: float(p) for x, p in A.items()}


def load(name, path):
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


def pure(f, *laws_):
    """calls f and checks that its argument laws are left alone"""
    before = [dict(a) for a in laws_ if isinstance(a, dict)]
    r = call(f, *laws_)
    if before != [a for a in laws_ if isinstance(a, dict)]:
        viol("changes a law it was given")
    return r


def nearest(x, q, rq):
    """residues mod rq nearest to x*rq/q (two at a tie)"""
    v = F(rq * x, q)
    lo = math.floor(v)
    if v - lo < F(1, 2):
        return {lo % rq}
    if v - lo > F(1, 2):
        return {(lo + 1) % rq}
    return {lo % rq, (lo + 1) % rq}


def p21():
    warn = io.StringIO()
    with contextlib.redirect_stderr(warn):
        m = load("proba_util", DIR + "/proba_util.py")
    get = lambda n: getattr(m, n, None)
    small = list(laws(-2, 2, 4))
    big = list(laws(-3, 3, 4)) if THOROUGH else small
    f = get("binomial")
    if f:
        for x in range(-3, 100 if THOROUGH else 70):
            if case("binomial", x):
                for y in range(-5, x + 6):
                    w = math.comb(x, y) if x >= 0 and y >= 0 else 0
                    g = call(f, x, y)
                    stat["compared"] += 1
                    if g != w:
                        viol("binomial(%d, %d) is %r, exact value %d" % (x, y, g, w))
                        break
    for k in range(0, 200 if THOROUGH else 60):
        want = {x: F(math.comb(2 * k, x + k), 4 ** k) for x in range(-k, k + 1)}
        f = get("build_centered_binomial_law")
        if f and case("centred-binomial", k):
            same_law(call(f, k), want)
        f = get("centered_binomial_pdf")
        if f and case("density", k):
            for x in range(-k - 4, k + 5):
                same(call(f, k, x), want.get(x, 0), "density at %d" % x)
    pairs = [(q, r) for q in range(1, 49 if THOROUGH else 33) for r in range(1, q + 1)]
    pairs += [(2 ** a, 2 ** b) for a in range(6, 14) for b in range(0, a + 1)]
    f = get("mod_switch")
    if f:
        for q, r in pairs + [(r, q) for q, r in pairs]:
            if case("switch", q, r):
                for x in range(q):
                    g = call(f, x, q, r)
                    stat["compared"] += 1
                    if g not in nearest(x, q, r):
                        viol("%d switched from modulus %d to %d is %r" % (x, q, r, g))
                        break
    f = get("mod_centered")
    if f:
        for q in list(range(1, 70)) + [2 ** a for a in range(7, 14)]:
            if case("centred", q):
                for x in range(-2 * q - 3, 2 * q + 4):
                    g = call(f, x, q)
                    stat["compared"] += 1
                    if g is None or (g - x) % q or 2 * abs(g) > q:
                        viol("%d reduced modulo %d is %r" % (x, q, g))
                        break
    f = get("build_mod_switching_error_law")
    if f:
        for q, r in pairs:
            if not case("switch-error", q, r):
                continue
            got = call(f, q, r)
            stat["compared"] += 1
            if got is None:
                continue
            sure, maybe = {}, {}
            for x in range(q):
                ds = set()
                for y in nearest(x, q, r):
                    for z in nearest(y, r, q):
                        d = (x - z) % q
                        ds |= {d - q if 2 * d > q else d} if 2 * d != q else {d, d - q}
                if len(ds) == 1:
                    d = ds.pop()
                    sure[d] = sure.get(d, 0) + 1
                else:
                    for d in ds:
                        maybe[d] = maybe.get(d, 0) + 1
            tot = sum(got.values())
            if not close(tot, 1):
                viol("probabilities sum to %r" % tot)
            for d in set(got) | set(sure):
                n = got.get(d, 0) * q
                if abs(n - round(n)) > 1e-6 or not sure.get(d, 0) <= round(n) <= sure.get(d, 0) + maybe.get(d, 0):
                    viol("error %d has probability %r, %d to %d of %d values give it" % (d, got.get(d, 0), sure.get(d, 0), sure.get(d, 0) + maybe.get(d, 0), q))
                    break
            own = get("mod_switch"), get("mod_centered")
            if all(own):
                w = {}
                for x in range(q):
                    d = own[1](x - own[0](own[0](x, q, r), r, q), q)
                    w[d] = w.get(d, 0) + F(1, q)
                same_law(got, w)
    for name, op in (("law_convolution", lambda a, b: a + b), ("law_product", lambda a, b: a * b)):
        f = get(name)
        if not f:
            continue
        for i, A in enumerate(big):
            if case(name, i):
                for B in big:
                    same_law(pure(f, fl(A), fl(B)), conv(A, B, op))
                D = fl(A)
                same_law(pure(f, D, D), conv(A, A, op))
    # wide supports
    wide = [{x: F(1, 40) for x in range(-20, 20)}, {0: F(1)}, {-300: F(1, 3), 7: F(2, 3)}, {x: F(math.comb(20, x + 10), 2 ** 20) for x in range(-10, 11)}]
    for name, op in (("law_convolution", lambda a, b: a + b), ("law_product", lambda a, b: a * b)):
        f = get(name)
        for i, A in enumerate(wide):
            for j, B in enumerate(wide):
                if f and case(name + "-wide", i, j):
                    same_law(pure(f, fl(A), fl(B)), conv(A, B, op))
    f = get("clean_dist")
    if f:
        for e in range(0, 1075):
            if case("clean", e):
                tiny, half = 2.0 ** -e, 0.5
                got = pure(f, {3: tiny, -1: half, 0: tiny, 7: 1e-30})
                want = {-1: half, 7: 1e-30}
                if e < 300:
                    want.update({3: tiny, 0: tiny})
                stat["compared"] += 1
                if got is not None and got != want:
                    viol("keeps %r of probability 2^-%d" % (got, e))
    f = get("iter_law_convolution")
    if f:
        top = 40 if THOROUGH else 20
        for i, A in enumerate(small):
            if case("n-fold", i):
                W = {0: F(1)}
                for n in range(top + 1):
                    same_law(pure(f, fl(A), n), W, 2.0 ** -299)
                    W = conv(W, A, lambda a, b: a + b)
        for n in list(range(21, 140)) + [255, 256, 257, 511, 512, 513, 768, 1024]:
            if case("n-fold-walk", n):
                # a two-point law: the exact law is binomial
                got = pure(f, {-1: .5, 1: .5}, n)
                same_law(got, {2 * j - n: F(math.comb(n, j), 2 ** n) for j in range(n + 1)}, 2.0 ** -290)
                got = pure(f, {0: .75, 5: .25}, n)
                same_law(got, {5 * j: F(math.comb(n, j) * 3 ** (n - j), 4 ** n) for j in range(n + 1)}, 2.0 ** -290)
        for e in range(1, 160, 4 if not THOROUGH else 1):
            if case("n-fold-rare", e):
                p = F(1, 2 ** e)
                for n in (1, 2, 3, 4, 5, 8):
                    W = {x: F(math.comb(n, x)) * p ** x * (1 - p) ** (n - x) for x in range(n + 1)}
                    if e <= 50:
                        same_law(pure(f, {0: float(1 - p), 1: float(p)}, n), W, 2.0 ** -299)
                    else:
                        W[0] = F(1)
                        same_law(pure(f, {0: 1.0, 1: float(p)}, n), {x: F(math.comb(n, x)) * p ** x for x in range(n + 1)}, 2.0 ** -299)
    f = get("convolution_remove_dependency")
    if f:
        for q, p in ((4, 4), (8, 4), (16, 4), (12, 4), (6, 2), (64, 8), (8192, 1024), (8192, 4096)):
            s = q // p
            for i, A in enumerate(small):
                if not case("conditioned-difference", q, p, i):
                    continue
                for B in small:
                    C, norm = {}, {}
                    for a in A:
                        norm[a % s] = norm.get(a % s, 0) + A[a]
                    for a in A:
                        for b in B:
                            if (a - b) % s == 0:
                                C[a - b] = C.get(a - b, 0) + A[a] * B[b] / norm[a % s]
                    same_law(pure(f, fl(A), fl(B), q, p), C)
    f = get("tail_probability")
    if f:
        for i, A in enumerate(big + wide + [{5: F(1)}, {-5: F(1)}, {-9: F(1, 4), 2: F(3, 4)}]):
            if case("tail", i):
                for t2 in list(range(0, 16)) + [2 * x for x in range(9, 12)] + [37, 38, 39, 40, 41, 598, 599, 600, 601, 700]:
                    t = t2 // 2 if t2 % 2 == 0 else t2 / 2
                    w = sum((p for x, p in A.items() if abs(x) > t), F(0))
                    same(pure(f, fl(A), t), w, "probability of absolute value above %r" % t)
                    if t2 % 2 == 0:
                        same(pure(f, fl(A), float(t)), w, "probability of absolute value above %r" % float(t))
        if case("tail-tiny"):
            A = {x: 2.0 ** (-10 * abs(x)) for x in range(-100, 101)}
            for t in range(0, 101):
                same(call(f, A, t), sum((2 * F(1, 2 ** (10 * x)) for x in range(t + 1, 101)), F(0)), "probability above %d" % t)
    for i, A in enumerate(big + wide):
        mean = sum(x * p for x, p in A.items())
        f = get("distmean")
        if f and case("mean", i):
            g = pure(f, fl(A))
            stat["compared"] += 1
            if g is not None and abs(g - float(mean)) > 1e-9 * 300:
                viol("mean is %r, exact value %r" % (g, float(mean)))
        f = get("distvariance")
        if f and case("variance", i):
            g = pure(f, fl(A))
            stat["compared"] += 1
            w = sum((x - mean) ** 2 * p for x, p in A.items())
            if g is not None and abs(g - float(w)) > 1e-9 * max(1, float(w)):
                viol("variance is %r, exact value %r" % (g, float(w)))
    f = get("gaussian_center_weight")
    if f:
        from statistics import NormalDist
        for s in range(1, 30):
            if case("gaussian", s):
                for t in range(0, 60):
                    w = NormalDist(0, s / 4).cdf(t / 4) - NormalDist(0, s / 4).cdf(-t / 4)
                    g = call(f, s / 4, t / 4)
                    stat["compared"] += 1
                    if g is not None and abs(g - w) > 1e-9:
                        viol("weight of the Gaussian of deviation %r on [-%r, %r] is %r, exact value %r" % (s / 4, t / 4, t / 4, g, w))
    print("SAMPLE tail 0: all thresholds 0, 0.5, 1 ... for a law on -2..2")
    end()


def fconv(A, B):
    """sum of two laws as (lowest value, list of floats): only additions and products of non-negative numbers"""
    C = [0.0] * (len(A[1]) + len(B[1]) - 1)
    for i, x in enumerate(A[1]):
        if x:
            for j, y in enumerate(B[1], i):
                C[j] += x * y
    return A[0] + B[0], C


def fpow(A, n):
    R = (0, [1.0])
    while n:
        if n & 1:
            R = fconv(R, A)
        n >>= 1
        if n:
            A = fconv(A, A)
    return R


def arr(D):
    lo, hi = min(D), max(D)
    return lo, [float(D.get(x, 0)) for x in range(lo, hi + 1)]


def p23():
    """search_params with a table as security estimate"""
    state = {}
    import math as _m

    def estimate(n, q, m_, D_e, D_s):
        state["calls"].append((n, q, m_, dict(D_e), dict(D_s)))
        return state["beta"](len(state["calls"]))

    fake = {n: types.ModuleType(n) for n in ("numpy", "matplotlib", "matplotlib.pyplot", "sage", "sage.all")}
    for n in ("sqrt", "exp", "log", "floor", "ceil"):
        setattr(fake["sage.all"], n, getattr(_m, n))
    fake["sage.all"].load = lambda p: None
    fake["matplotlib"].pyplot = fake["matplotlib.pyplot"]
    sys.modules.update(fake)
    import builtins
    builtins.load = lambda p: None
    load("proba_util", DIR + "/proba_util.py")
    m = load("select_params", DIR + "/select_params.py")
    if not hasattr(m, "search_params"):
        print("NOTE no search_params")
        end()
    m.estimate = estimate
    exact = {}

    def plan(Ds, logq, k, n, logp):
        """exact log2 of 256 times the failure probability for every logT"""
        key = (tuple(sorted(Ds.items())), logq, k, n, logp)
        if key in exact:
            return exact[key]
        q, p = 2 ** logq, 2 ** logp
        me = sys.modules["proba_util"]
        sw = getattr(me, "mod_switch", lambda x, a, b: round(F(b * x, a)) % b)

        def err(r):
            D = {}
            for x in range(q):
                d = (x - sw(sw(x, q, r), r, q)) % q
                d -= q if 2 * d >= q else 0
                D[d] = D.get(d, 0) + F(1, q)
            return D
        se = conv(Ds, err(p), lambda a, b: a * b)
        lo, w = fpow(arr(se), k * n)
        s = q // p
        # difference of two such sums conditioned on equal residues modulo q/p
        diff = {}
        for r in range(s):
            part = [(lo + i, x) for i, x in enumerate(w) if (lo + i) % s == r and x]
            norm = sum(x for _, x in part)
            for a, x in part:
                for b, y in part:
                    diff[a - b] = diff.get(a - b, 0.0) + x * y / norm
        out = {}
        for logT in range(1, 2 * logp - logq + 1):
            e = sorted(err(2 ** logT).items())
            ps, cum = [x for x, _ in e], [0.0]
            up = [0.0]
            for _, x in e:
                cum.append(cum[-1] + float(x))
            for _, x in reversed(e):
                up.append(up[-1] + float(x))
            t = q // 4
            tail = sorted(x * (up[len(ps) - bisect.bisect_right(ps, t - d)] + cum[bisect.bisect_left(ps, -t - d)]) for d, x in diff.items())
            tail = math.fsum(tail)
            out[logT] = 8 + math.log2(tail) if tail else -math.inf
        exact[key] = out
        return out

    cbd = lambda k: {x: F(math.comb(2 * k, x + k), 4 ** k) for x in range(-k, k + 1)}
    secrets = {"b1": cbd(1), "b2": cbd(2), "u01": {0: F(1, 2), 1: F(1, 2)}, "b5": cbd(5)}
    confs = [("b1", 11, 1, 256), ("b2", 11, 1, 256), ("u01", 11, 1, 256), ("b1", 12, 1, 256), ("b5", 11, 1, 256), ("b5", 11, 4, 256), ("b5", 11, 3, 128), ("b5", 12, 2, 256),
             ("b1", 11, 1, 8), ("b2", 12, 3, 40), ("u01", 12, 2, 64)]
    if THOROUGH:
        confs += [("b5", 11, 2, 256), ("b1", 12, 2, 256), ("b1", 11, 3, 256), ("b1", 13, 1, 256)]
    import re
    for nm, logq, k, n in confs:
        Ds = secrets[nm]
        nP = logq - 10
        for minsec in (0, 100):
            # every position at which the security estimate first falls below the target, and estimates on the boundary
            for cut in range(nP + 1):
                # 'near p T -/+': just below and just above the failure exponent of one set, so that every outcome is met
                targets = [(-20, 0), (-100, 0), (-200, 0)] + ([(-1, 0), (-60, 0), (-136, 0)] if THOROUGH else [])
                if cut == nP and minsec:
                    targets += [("near %d %d" % (lp, lt), d) for lp in range(10, logq) for lt in range(1, 2 * lp - logq + 1) for d in (-1, 1)]
                for target, side in targets:
                    if not case("search", nm, logq, k, minsec, cut, target, side):
                        continue
                    maxerror = target
                    if side:
                        x = plan(Ds, logq, k, n, int(target.split()[1]))[int(target.split()[2])]
                        if x < -250:
                            continue
                        maxerror = x + side * 1e-3
                    # the last set that meets the target meets it exactly
                    lo_, hi_ = (minsec - 1) / 0.292, (minsec + 1) / 0.292
                    edge = minsec / 0.292
                    edge = edge if 0.292 * edge == minsec else hi_
                    state.update(calls=[], beta=lambda i: (edge if i == cut else hi_) if i <= cut else lo_)
                    buf = io.StringIO()
                    try:
                        stat["impl_runs"] += 1
                        stat["evaluations"] += 1
                        with contextlib.redirect_stdout(buf):
                            m.search_params(fl(Ds), 2 ** logq, k, n, minsec, maxerror)
                    except Exception as e:
                        viol("raises %s: %s" % (type(e).__name__, e))
                        continue
                    stat["compared"] += 1
                    want = []
                    for i in range(nP):
                        logp = 10 + i
                        if i >= cut:
                            break
                        pr = plan(Ds, logq, k, n, logp)
                        for logT in sorted(pr):
                            if pr[logT] <= maxerror:
                                want.append((logp, logT, pr[logT]))
                                break
                    text = buf.getvalue()
                    num = r"(-?inf|-?\d+(?:\.\d+)?(?:e[+-]?\d+)?)"
                    got = re.findall(r"p:\s*" + num + r"\s*T:\s*" + num, text)
                    fail = re.findall(r"failure probability:\s*" + num, text)
                    if [(float(a), float(b)) for a, b in got] != [(a, b) for a, b, _ in want]:
                        viol("reports (p, T) exponents %s, the sets meeting the targets are %s" % (got, [(a, b, round(c, 2)) for a, b, c in want]))
                        continue
                    for g, w in zip(fail, want):
                        g = float(g)
                        if not (abs(g - w[2]) < 1e-6 or (g < -250 and w[2] < -250)):
                            viol("failure probability 2^%r reported, exact 2^%r" % (g, w[2]))
                    for a, b, c, w in ((*x, w) for x, w in zip(re.findall(r"bandwidth b\s*" + num + r"\s*bandwidth c\s*" + num + r"\s*bandwidth total\s*" + num, text), want)):
                        bb, bc = w[0] * k * n / 8, n * w[1] / 8
                        if (float(a), float(b), float(c)) != (bb, bc, 2 * bb + bc + 32):
                            viol("bandwidth %s %s %s reported, real sizes %s" % (a, b, c, (bb, bc, 2 * bb + bc + 32)))
                    for a, b, c in re.findall(r"q:\s*" + num + r".*?l:\s*" + num + r"\s*n:\s*" + num, text):
                        if (round(float(a), 6), float(b), float(c)) != (logq, k, n):
                            viol("reports q, l, n = %s %s %s for %s" % (a, b, c, (logq, k, n)))
                    pks = re.findall(r"pk:\s*" + num + r"\s*send:\s*" + num, text)
                    for j, (a, b) in enumerate(pks):
                        w = want[j * len(want) // len(pks)]
                        bb, bc = w[0] * k * n / 8, n * w[1] / 8
                        if float(a) != bb + 32 or float(b) != bb + bc:
                            viol("sizes %s %s reported, real sizes %s %s" % (a, b, bb + 32, bb + bc))
                    for j, (name_, model_) in enumerate((("quantum", 0.265), ("classical", 0.292))):
                        for g, w in zip(re.findall(name_ + r":\s*" + num, text), want):
                            b = edge if w[0] - 9 == cut else hi_
                            if not close(float(g), model_ * b) and model_ * b:
                                viol("%s security %s reported for block size %r" % (name_, g, b))
                    for i, c in enumerate(state["calls"]):
                        if c[3] is None:
                            break
                        me = sys.modules["proba_util"]
                        if i < nP and hasattr(me, "build_mod_switching_error_law") and c[3] != me.build_mod_switching_error_law(2 ** logq, 2 ** (10 + i)):
                            viol("estimates the security for another error law than that of rounding to 2^%d" % (10 + i))
                        if c[4] != fl(Ds):
                            viol("estimates the security for another secret law")
                    for c in state["calls"]:
                        if c[:3] != (k * n, 2 ** logq, k * n):
                            viol("estimates the security of dimension and modulus %s" % (c[:3],))
                            break
    print("SAMPLE search b1 12 1 100 1 -100")
    end()


{"p21": p21, "p23": p23}[MODE]()
