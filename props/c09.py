"""Number theory helpers (Code/Math.py)."""
from bbv.runner import Case
from bbv import shim

INFO = {
    "functions": ["Math.gcd", "Math.lcm", "Math.exp_mod", "Math.carmichael",
                  "Math.prime_factor", "Math.int_pow"],
    "bounds": "gcd/lcm: both arguments in -40..40, and one argument unbounded with the other in "
              "-16..16 (quick) or -40..40; prime_factor, int_pow: every argument up to 400 (quick) or "
              "2000 whose factors are in the table; exp_mod: every exponent (unbounded), "
              "bases 0..12, moduli 1..24 and prime powers up to 343 (quick) or 1..64",
    "outside": "larger bases and moduli, primes above 97 (refused), the approximate float helpers",
}


def _is_gcd(ctx, g, a, b, n):
    ctx.check(ctx.And(a % g == 0, b % g == 0), "gcd divides both arguments")
    for d in range(g + 1, n + 1):
        ctx.check(ctx.Or(a % d != 0, b % d != 0), "no common divisor exceeds the gcd")


def gcd(ctx, n):
    M = shim.load("Math")
    a = ctx.int("a", -n, n)
    b = ctx.int("b", -n, n)
    d = ctx.int("d", 1, n)      # an arbitrary positive common divisor
    x = ctx.int("x", -n, n)
    y = ctx.int("y", -n, n)
    ctx.assume(a == d * x)
    ctx.assume(b == d * y)
    g = M.gcd(a, b)
    ctx.check(ctx.implies(ctx.And(a == 0, b == 0), g == 0), "gcd(0,0) is 0")
    ctx.assume(ctx.Or(a != 0, b != 0))
    ctx.check(g >= d, "no common divisor exceeds the gcd")
    g = ctx.concrete(g)
    ctx.check(g > 0, "the gcd is positive")
    ctx.check(ctx.And(a % g == 0, b % g == 0), "gcd divides both arguments")
    ctx.note("nonzero")


def gcd_lcm(ctx, n):
    """One argument unbounded."""
    M = shim.load("Math")
    b = ctx.choice("b", 2 * n) - n
    b = b if b < 0 else b + 1
    a = ctx.int("a")
    swap = ctx.choice("swap", 2)
    g = ctx.concrete(M.gcd(b, a) if swap else M.gcd(a, b))
    ctx.check(0 < g <= abs(b), "gcd within the divisors of b")
    _is_gcd(ctx, g, a, b, abs(b))
    l = M.lcm(b, a) if swap else M.lcm(a, b)
    ctx.check(l % b == 0, "lcm is a multiple of both")
    ctx.check(ctx.Or(l * g == a * b, l * g == -(a * b)), "lcm is a multiple of both")
    if b > 0:
        # multiples of a below lcm: j*a with 0 < j < b/g is never a multiple of b
        ctx.assume(a > 0)
        ctx.check(l > 0, "lcm of positive arguments is positive")
        ctx.check(l % a == 0 if not ctx.symbolic else l == a * (b // g), "lcm is a multiple of both")
        for j in range(1, b):
            ctx.check(ctx.implies(j * a < l, (j * a) % b != 0), "no smaller common multiple")
        ctx.note("positive")


def factor(ctx, lo, hi):
    M = shim.load("Math")
    n = ctx.int("n", lo, hi)
    try:
        f = M.prime_factor(n)
    except NotImplementedError:
        # refused: must have a prime factor above 97
        m = ctx.concrete(n)
        for p in range(2, 98):
            while m % p == 0:
                m //= p
        ctx.check(m > 97, "a number with small factors only is not refused")
        return
    prod = 1
    seen = 1
    for p, k in f:
        p, k = ctx.concrete(p), ctx.concrete(k)
        ctx.check(p > seen and k >= 1 and all(p % q for q in range(2, p)), "increasing primes")
        seen = p
        prod *= p ** k
    ctx.check(n == prod, "factorisation multiplies back")
    ctx.note("factored")


def int_pow(ctx, lo, hi):
    M = shim.load("Math")
    n = ctx.int("n", lo, hi)
    m, k = M.int_pow(n)
    m, k = ctx.concrete(m), ctx.concrete(k)
    ctx.check(n == m ** k, "n == m^k")
    for j in range(2, m):
        e = 1
        while j ** e < hi:
            e += 1
            ctx.check(n != j ** e, "no smaller base")




def exp_mod(ctx, ms, bmax):
    M = shim.load("Math")
    m = ms[ctx.choice("m", len(ms))]
    b = ctx.choice("b", bmax + 1)
    k = ctx.int("k", 0)
    zero = M.exp_mod(b, 0, m)
    ctx.check(zero == 1 % m, "b^0 mod m")
    r = M.exp_mod(b, k, m)
    ctx.check(ctx.And(0 <= r, r < m), "result is a residue")
    r1 = M.exp_mod(b, k + 1, m)
    ctx.check(r1 == b * r % m, "b^(k+1) mod m == b * b^k mod m")
    ctx.note("checked")


def cases(tier):
    q = tier == "quick"
    cs = [Case("gcd", {"n": 40 if q else 60}, name="gcd"),
          Case("gcd_lcm", {"n": 16 if q else 40}, name="gcd_lcm", need=["positive"])]
    top = 400 if q else 2000
    step = 100 if q else 250
    for lo in range(1, top, step):
        cs.append(Case("factor", dict(lo=lo, hi=lo + step - 1), name="factor_%d" % lo, need=["factored"]))
    for lo in range(2, top, step):
        cs.append(Case("int_pow", dict(lo=lo, hi=lo + step - 1), name="int_pow_%d" % lo))
    ms = list(range(1, 25 if q else 65)) + [25, 27, 32, 49, 64, 81, 121, 125, 128, 343]
    n = 10
    for i in range(n):
        cs.append(Case("exp_mod", dict(ms=ms[i::n], bmax=8 if q else 12), name="exp_mod_%d" % i, need=["checked"]))
    return cs
