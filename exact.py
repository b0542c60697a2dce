"""Rows of the exact affine analysis (absint/src/aff.rs): id | entry | component | largest k | base:stride of each argument (bits, hex) |
the true value a:b:e, that is (a k + b) 2^e, =a:b for an integer result, #bits or nan.
Every row stands for all arguments base + stride * k, 0 <= k <= largest k, and is decided for all of them."""
import random
from rulesets import names
P = {"f16": (11, 15, -24, 16), "f32": (24, 127, -149, 32), "f64": (53, 1023, -1074, 64), "f128": (113, 16383, -16494, 128)}
R = []
h = lambda v: ("-" if v < 0 else "") + "%x" % abs(v)
def row(id, f, comp, n, args, want): R.append(f"{id} | {f} | {comp} | {h(n)} | " + " ".join(h(b) + (":" + h(s) if s else "") for b, s in args) + " | " + want)
def val(a, b, e): return f"{h(a)}:{h(b)}:{e}"
def fbits(t, neg, m, e):
    """the bits of (-1)^neg m 2^e, which must be representable"""
    p, bias, emin, w = P[t]
    if m == 0: return neg << (w - 1)
    while m.bit_length() > p: assert m & 1 == 0; m >>= 1; e += 1
    while m.bit_length() < p and e > emin: m <<= 1; e -= 1
    while e < emin: assert m & 1 == 0; m >>= 1; e += 1
    x = (e + bias + p - 1) if m.bit_length() == p else 0
    assert x < 2 * bias + 1
    return neg << (w - 1) | x << (p - 1) | m & ((1 << (p - 1)) - 1)
def split(t, b):
    p, bias, emin, w = P[t]
    neg = b >> (w - 1); x = b >> (p - 1) & (2 * bias + 1); f = b & ((1 << (p - 1)) - 1)
    return (neg, f, emin) if x == 0 else (neg, f | 1 << (p - 1), x - bias - (p - 1))

def fma_rows(t, f, thorough):
    p, bias, emin, w = P[t]
    rng = random.Random(t)
    M = 1 << (p - 1)
    def z_free(mx, ex, my, ey, ez, sp, sz, low=0, extra=0):
        """z over one binade, 2^ez ulp, every bit free down to the unit of the result; product mx my 2^(ex+ey)"""
        pr, pe = mx * my, ex + ey
        top = max(pr.bit_length() + pe, ez + p)
        ur = max(top - p + 1, emin)
        j = max(0, ur + 1 + extra - ez) if low or ur > ez else extra
        if j > p - 3 or ez < emin: return
        tops = [p - 1]
        if ez == emin and low & 1: tops = [None] if p < 30 else [p - 2, p - 3, p // 2, j + 4] # subnormal numbers
        for top in tops:
            n = (1 << (p - 1 - j)) - 1 if top is None else (1 << top - j) - 1
            base = (0 if top is None else 1 << top) + (low & ((1 << j) - 1))
            try: ax, ay, bz = fbits(t, sp, mx, ex), fbits(t, 0, my, ey), fbits(t, sz, base, ez)
            except AssertionError: return
            e = min(pe, ez); s = -1 if sp else 1; q = -1 if sz else 1
            row("fma", f, 0, n, [(ax, 0), (ay, 0), (bz, 1 << j)], val(q << j + ez - e, s * (pr << pe - e) + q * (base << ez - e), e))
    def x_free(mx, ex, my, ey, mz, ez, sp, sz, swap):
        """x over one binade, the low bits fixed to those of mx"""
        pe = ex + ey; my >>= (k := (my & -my).bit_length() - 1); ey += k; pe = ex + ey
        top = max(p + my.bit_length() + pe, mz.bit_length() + ez)
        ur = max(top - p + 1, emin)
        j = max(0, ur + 1 - pe)
        if j > p - 3: return
        n = (1 << (p - 1 - j)) - 1
        base = M + (mx & ((1 << j) - 1))
        try: bx, ay, az = fbits(t, sp, base, ex), fbits(t, 0, my, ey), fbits(t, sz, mz, ez)
        except AssertionError: return
        e = min(pe, ez); s = -1 if sp else 1; q = -1 if sz else 1
        a = [(bx, 1 << j), (ay, 0)]
        row("fma", f, 0, n, (a[::-1] if swap else a) + [(az, 0)], val(s * my << j + pe - e, s * (base * my << pe - e) + q * (mz << ez - e), e))
    # products near half a unit, a quarter, one and two units of the last place of z: exactly, a little less, a little more
    near = [(1, 1)]
    for a in ([1, 2, 3, p // 2, p - 2, p - 1] if not thorough else range(1, p)):
        near += [((1 << a) - 1, (1 << a) + 1), ((1 << a) + 1, (1 << a) + 1), ((1 << a) - 1, 1), ((1 << a) + 1, 1)]
    s = (p - 2) // 2; c = 2 * s + 1 # (2^c - 2^s' + 1)(2^c + 2^s' + 1) = 2^2c + 1 with s' = (c + 1) / 2
    if c <= p - 1: near.append(((1 << c) - (1 << (c + 1) // 2) + 1, (1 << c) + (1 << (c + 1) // 2) + 1))
    for mx, my in near:
        if mx.bit_length() > p or my.bit_length() > p: continue
        pr = mx * my
        L = pr.bit_length() - (0 if pr & (pr - 1) == 0 or pr >> pr.bit_length() - 2 == 2 else -0)
        L = min((L - 1, L), key=lambda v: abs(pr - (1 << v))) # the nearest power of two
        for ez in ([0, 3, emin] if not thorough else [0, 7, -30, emin, emin + 1, bias - p]):
            for d in (-1, 0, -2, 1, -p, -p - 1):
                if ez == emin and d < 0 and ez + d - L < 2 * emin + 2 * p and mx.bit_length() + my.bit_length() > 2 * p - 2: continue
                e = ez + d - L
                # share the exponent between x and y
                ex = e // 2; ey = e - ex
                for sp, sz in ((0, 0), (1, 0)) + (((0, 1),) if thorough else ()):
                    z_free(mx, ex, my, ey, ez, sp, sz, extra=1 if d == -1 and pr & (pr - 1) == 0 else 0)
                    if ez == emin: z_free(mx, ex, my, ey, ez, sp, sz, low=1, extra=1)
    # the only bit beyond a tie, at every distance
    for a in range(1, p if p < 60 or thorough else p, 1 if p < 60 or thorough else 2):
        for i in range(2 if p < 60 else 1):
            mx, my = ((1 << a) + 1, 1) if i == 0 else ((1 << a // 2) + 1, (1 << a - a // 2) + 1)
            for sp in (0, 1):
                for ez in (0, emin) if a % 4 == 1 else (0,):
                    e = ez - 1 - ((mx * my).bit_length() - 1)
                    z_free(mx, e // 2, my, e - e // 2, ez, sp, 0)
                    # with x free: half of its last product unit, z below
            # z itself is the bit beyond the tie
        for sz in (0, 1): x_free((1 << (p - 1) // 2) | 1, -(p - 1), 3, 0, 1, -p - a - 1 + 3, 0, sz, a & 1)
    # every difference of exponents, with random low parts
    for d in range(-2 * p - 14, 2 * p + 14, 1 if thorough or p < 60 else 3):
        for i in range(4 if thorough else 2):
            mx, my = rng.getrandbits(p - 1) | M, rng.getrandbits(p - 1) | M
            if i & 1: mx |= 1; my |= 1
            for sp in (0, 1):
                ez = rng.randrange(-40, 40) if p > 11 else 0
                e = ez + d - (p - 1); ex = e // 2
                z_free(mx, ex, my, e - ex, ez, sp, 0, low=rng.getrandbits(p))
                # exponents near the smallest results
                if i == 0 and d < 3: z_free(mx, (emin + d - p) // 2, my, emin + d - p - (emin + d - p) // 2, emin + rng.randrange(0, 4), sp, 0)
    # x free
    for b in ((1, 2, 5, 11, p // 2 - 2) if not thorough else range(1, p // 2 + 4)):
        for d in range(-p - b - 6, p + 8, 1 if thorough else 4 if p > 60 else 2):
            for sp in (0, 1):
                my = rng.getrandbits(b) | 1 | 1 << b - 1
                mx, mz = rng.getrandbits(p), rng.getrandbits(p - 1) | M
                ez = rng.randrange(-40, 40) if p > 11 else 0
                ex = rng.randrange(-30, 30)
                # product 2^d times z
                ey = ez + d - ex - b
                x_free(mx, ex, my, ey, mz, ez, sp, 0, rng.getrandbits(1))
                if d < 0: x_free(mx, (emin + d) // 2, my, emin - (emin + d) // 2 + d, rng.getrandbits(p // 2) | 1, emin, sp, 0, rng.getrandbits(1))
                if d % 8 == 0: x_free(mx, (emin + d) // 2, my, emin - (emin + d) // 2 + d, M + rng.getrandbits(p // 2), emin + 1, sp, 0, rng.getrandbits(1))
    # ties of the product with x free: x my has its last bit half a unit below the result
    for b in (2, 3, 7):
        my = (1 << b) - 1 if b > 2 else 3
        for lo in range(1, 1 << b, 2):
            for mz, ez, sz in ((1, -2 * p - 60, 0), (1, -2 * p - 60, 1), (1, emin, 0), (1, emin, 1), (M, -p - 4, 0), (M + 1, -p - 3, 1)):
                if p < 30 and ez != emin and ez < emin: continue
                x_free(lo << (p - 1 - p // 2) | (1 << (p - 2 - p // 2)), -(p - 1), my, 0, mz, ez, 0, sz, lo & 2)
                x_free(lo, -(p - 1), my, 0, mz, ez, 0, sz, lo & 2)
    # the rounding error of a product: z = -(x y rounded)
    for b in ((5, p // 3, p // 2) if not thorough else range(2, p // 2)):
        for i in range(6):
            my = rng.getrandbits(b) | 1 | 1 << b - 1
            j = b + 2; lo = rng.getrandbits(j)
            lim = (1 << p + b - 1) if i % 2 == 0 else None
            # x = M + lo + 2^j k with x my below 2^(p+b-1)
            n = (1 << p - 1 - j) - 1
            if lim: n = min(n, ((lim - 1) // my - M - lo) >> j)
            else: # above
                n0 = -(-(1 << p + b - 1) // my); x0 = max(M + lo, (n0 - M - lo + (1 << j) - 1 >> j << j) + M + lo)
            base = M + lo if lim else x0
            if not lim: n = (2 * M - 1 - base) >> j
            if n < 1: continue
            u = b - 1 if lim else b
            if (base * my).bit_length() != p + u or ((base + (n << j)) * my).bit_length() != p + u: continue
            q, r = divmod(base * my, 1 << u)
            if 2 * r > 1 << u or 2 * r == 1 << u and q & 1: q += 1
            if q + (my << j - u) * n >= 1 << p: n -= 1
            ex = rng.randrange(-20, 20) if p > 24 else 0
            sx = rng.getrandbits(1)
            try: bx, by, bz = fbits(t, sx, base, ex), fbits(t, 0, my, 0), fbits(t, 1 - sx, q, ex + u)
            except AssertionError: continue
            v = base * my - (q << u)
            row("fma", f, 0, n, [(bx, 1 << j), (by, 0), (bz, my << j - u)], val(0, -v if sx else v, ex))
    # near the overflow limit
    top = bias - (p - 1)
    for sp in (0, 1):
        for mx, my, e in ((M, M, top + 1 - (p - 1)), (2 * M - 1, 2 * M - 1, top - p + 1), (2 * M - 1, M, top - p), (M, M, top - p - (p - 1) + 0), (2 * M - 1, 2 * M - 1, top - 2 * p)):
            ex = e // 2
            z_free(mx, ex, my, e - ex, top, sp, 0); z_free(mx, ex, my, e - ex, top, sp, 1); z_free(mx, ex, my, e - ex, top - 1, sp, 1)

def c21(thorough):
    for f, t in names("fma"): fma_rows(t, f, thorough)

def c19(thorough):
    """long divisions: quotient fixed, every remainder"""
    for b in ("fmod", "remainder", "remquo"):
        for f, t in names(b):
            p, bias, emin, w = P[t]
            rng = random.Random(t)
            M = 1 << (p - 1)
            for d in range(0, p - 4, 1 if thorough else 3 if p > 60 else 1):
                for i in list(range(3 if thorough else 2)) + [4, 5, 6, 7]:
                    for ey in (0, emin) if i == 0 else (rng.randrange(-10, max(-9, min(bias - p - d, 100))) if p > 11 else 0,):
                        Y = rng.getrandbits(p - 1) | M
                        if i == 2: Y |= 1
                        if ey == emin and i == 0 and d % 2: Y >>= rng.randrange(1, p - 2); Y |= 1
                        dd = d if ey + d <= bias - p else 0
                        # x = X 2^dd with quotient Q: Q Y <= X 2^dd < (Q + 1) Y and X of p bits
                        X = rng.getrandbits(p - 1) | M
                        if dd == 0 and X < Y: X = min(Y + (X >> 3), 2 * M - 1)
                        Q = (X << dd) // Y
                        # quotients with long runs of zeros or ones
                        if i > 3:
                            if dd < 3: continue
                            Y = M + rng.getrandbits(p - 2) | 1
                            Q = (1 << dd) + (1, 3, 1 << dd // 2, (1 << dd // 2) - 1)[i - 4]
                        if Q == 0: continue
                        x0 = -(-Q * Y >> dd); x1 = (Q + 1) * Y - 1 >> dd # every X with this quotient
                        half = (2 * Q + 1) * Y # in halves
                        lo, hi = max(x0, M), min(x1, 2 * M - 1)
                        parts = [(lo, hi, 0)]
                        if b != "fmod":
                            a = (half - 1) // 2 >> dd; c = -(-(half + 1) // 2 >> dd)
                            parts = [(lo, min(hi, a), 0), (max(lo, c), hi, 1)]
                        for l, g, up in parts:
                            # remainders that are not zero first, zero in a row of its own
                            if g <= l: continue
                            if (l << dd) == Q * Y: l += 1
                            if g <= l: continue
                            for sx, sy in ((0, 0), (1, 0), (0, 1)) if i == 0 else ((0, 0),):
                                sg = -1 if sx else 1
                                try: bx, by = fbits(t, sx, l, ey + dd), fbits(t, sy, Y, ey)
                                except AssertionError: continue
                                if (bx >> (p - 1)) != (bx + g - l) >> (p - 1): continue
                                r = (l << dd) - (Q + up) * Y
                                args = [(bx, 1), (by, 0)]
                                row(f"division{d >> 3 << 3}", f, 0, g - l, args, val(sg << dd, sg * r, ey))
                                if b == "remquo":
                                    q = (Q + up) & 0x7fffffff if False else Q + up
                                    q = -q if sx != sy else q
                                    if abs(q) < 1 << 31: row(f"division{d >> 3 << 3}", f, 1, g - l, args, f"=0:{h(q)}")
            # multiples: y over all its upper bits, x = q y 2^j
            for q in (3, 5, 7, 11, 1001) if not thorough else list(range(3, 64, 2)) + [1001, 4093]:
                if q.bit_length() + 4 > p: continue
                s = q.bit_length() + 1
                Mq = 1 << (p - 1 - s)
                # y = (Mq + k) 2^s with q (Mq + k) of constant length
                n = Mq - 1
                L = (q * Mq).bit_length()
                n = min(n, ((1 << L) - 1) // q - Mq)
                for j in (0, 1, 9, 60, 300, 1500):
                    if j + s + 3 > bias or j and p < 24 and j > 9: continue
                    ey = 0 if p > 24 else -(p + 4)
                    by = fbits(t, 0, Mq << s, ey); bx = fbits(t, 0, q * Mq, ey + s + j)
                    # strides in units of the last place
                    sy = 1 << s; sx = q << (p - L)
                    for g in (0, 1):
                        row("multiple", f, 0, n, [(bx | g << (w - 1), sx), (by, sy)], f"#{h(g << w - 1)}")

    # quotients next to a half: ties, and one unit to either side
    for b in ("remainder", "remquo"):
        for f, t in names(b):
            p, bias, emin, w = P[t]
            M = 1 << (p - 1)
            def both(cls, n, args, r, q):
                for sx, sy in ((0, 0), (1, 0), (0, 1)):
                    g = -1 if sx else 1
                    a = [(args[0][0] | sx << w - 1, args[0][1]), (args[1][0] | sy << w - 1, args[1][1])]
                    row(cls, f, 0, n, a, val(g * r[0], g * r[1], r[2]))
                    if b == "remquo": row(cls, f, 1, n, a, f"=0:{h(-q if sx != sy else q)}")
            for Q in range(8) if not thorough else range(40):
                m = 2 * Q + 1
                up = Q & 1
                s = m.bit_length() + 1
                if s + 3 > p: continue
                # ties: y = (Mq + k) 2^s, x = m y / 2
                Mq = 1 << (p - 1 - s); n = Mq - 1
                L = (m * Mq).bit_length(); n = min(n, ((1 << L) - 1) // m - Mq)
                for ey in (0, emin + 2) if p > 11 else (-12, emin + 2):
                    try: by, bx = fbits(t, 0, Mq << s, ey), fbits(t, 0, m * Mq, ey + s - 1)
                    except AssertionError: continue
                    if n > 0 and ey + s - 1 + L >= emin + p: both("half", n, [(bx, m << (p - L)), (by, 1 << s)], (-1 if up else 1, -Mq if up else Mq, ey + s - 1), Q + up)
                # subnormal y of either residue over a binade, x = Q y + (y -+ 1) / 2
                for lead in (7, p - 6 - m.bit_length()) if p > 11 else (4,):
                    for c in (1, 3):
                        for sg in (-1, 1):
                            st = 4
                            y0 = c + (1 << lead)
                            x0 = (m * y0 + sg) // 2
                            nn = min((M - 1 - x0) // (m * st // 2), ((1 << lead) - 1 - c) // st)
                            if nn < 1: continue
                            r0 = (y0 - 1) // 2 if sg < 0 else -(y0 - 1) // 2
                            both("half", nn, [(x0, m * st // 2), (y0, st)], (st // 2 if sg < 0 else -st // 2, r0, emin), Q + (sg > 0))
                # y over a binade, x one unit of its own from half of it
                if Q == 0:
                    e = 3 if p > 11 else -6
                    for sg in (-1, 1):
                        y0 = M + 2; n = M - 5
                        both("half", n, [(fbits(t, 0, y0 + sg, e - 1), 1), (fbits(t, 0, y0, e), 1)], (1, y0 - 1, e - 1) if sg < 0 else (-1, -(y0 - 1), e - 1), int(sg > 0))

def pow_rows(thorough):
    """classes of integers and of numbers that are not, in every binade of the exponent"""
    for f, t in names("pow"):
        p, bias, emin, w = P[t]
        M = 1 << (p - 1); S = 1 << (w - 1)
        fb = lambda neg, m, e: fbits(t, neg, m, e)
        one, two, inf = fb(0, 1, 0), fb(0, 1, 1), (2 * bias + 1) << (p - 1)
        half = fb(0, 1, -1)
        nan = "nan"
        for k in range(1, p + 3):
            # |y| in [2^k, 2^(k+1)): odd integers, even integers, halves
            e = k - (p - 1)
            for sy in (0, 1):
                if e <= 0:
                    u = 1 << -e # units in one
                    odd, even = (M + u, 2 * u), (M, 2 * u)
                    no, ne = (M - 1 - u) // (2 * u), (M - 1) // (2 * u)
                    if M % (2 * u): odd, even, no, ne = even, odd, ne, no
                else: odd, even, no, ne = None, (M, 1), 0, M - 1
                for cl, n, kind in ((odd, no, 1), (even, ne, 0)) + ((((M + u // 2, u), (M - 1) // u, 2), ((M + 1, u), (M - 2) // u, 2)) if e < 0 else ()):
                    if cl is None or n < 0: continue
                    y = (fb(sy, cl[0], e), cl[1])
                    go = lambda x, want: row("pow", f, 0, n, [(x, 0), y], want)
                    go(one | S, nan if kind == 2 else "#" + h(one | S if kind == 1 else one))
                    go(S, "#" + h((inf if sy else 0) | (S if kind == 1 else 0)))
                    go(inf | S, "#" + h((0 if sy else inf) | (S if kind == 1 else 0)))
                    if kind == 2: go(two | S, nan); go(half | S, nan)
                    elif k > 2 + bias.bit_length():
                        # beyond the range: infinity or zero of the right sign
                        go(two | S, "#" + h((0 if sy else inf) | (S if kind == 1 else 0))); go(half | S, "#" + h((inf if sy else 0) | (S if kind == 1 else 0)))
SETS = {"C21": c21, "C19": c19, "C09": pow_rows}
def rows(pid, thorough=False):
    global R
    R = []
    SETS[pid](thorough)
    return list(dict.fromkeys(R))
if __name__ == "__main__":
    import sys
    print("\n".join(rows(sys.argv[1], len(sys.argv) > 2)))
