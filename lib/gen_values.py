"""Value types: resolution changes, fixed point arithmetic, real conversions."""
U32 = 1 << 32


def b4(v):
    v %= U32
    return [v >> 24, (v >> 16) & 255, (v >> 8) & 255, v & 255]


def b2(v):
    return [(v >> 8) & 255, v & 255]


def b7(n):
    return list(n.to_bytes(7, "big"))


def group(evs, k=40):
    return [evs[i:i + k] for i in range(0, len(evs), k)]


def edges32():
    e = set()
    for k in range(33):
        for d in (-2, -1, 0, 1, 2):
            e.add(((1 << k) + d) % U32)
            e.add((U32 - (1 << k) + d) % U32)
            e.add((0x80000000 + (1 << k) + d) % U32)
            e.add((0x80000000 - (1 << k) + d) % U32)
    return sorted(e)


def scaling(rng, many):
    evs = [["up7", [v]] for v in range(128)]
    evs += [["up14", [v]] for v in (range(16384) if many > 1 else
                                    sorted({*range(0, 16384, 13), *range(8150, 8260), *range(64), *range(16320, 16384), *(1 << k for k in range(14))}))]
    for y in range(3, 33):
        for x in range(2, y):
            vs = {0, 1, 2, (1 << (x - 1)) - 1, 1 << (x - 1), (1 << (x - 1)) + 1, (1 << x) - 2, (1 << x) - 1}
            if x <= 6:
                vs |= set(range(1 << x))
            vs |= {rng.randrange(1 << x) for _ in range(6 * many)}
            vs |= {rng.randrange(1 << (x - 1), 1 << x) for _ in range(6 * many)}
            evs += [["up", [x, y], b4(v)] for v in sorted(vs) if v < (1 << x)]
    ws = edges32() + [rng.randrange(U32) for _ in range(2000 * many)]
    evs += [["down32", b4(v)] for v in ws]
    evs += [["down16", b2(v)] for v in sorted({v & 0xFFFF for v in ws} | set(range(0, 65536, 3 if many > 1 else 31)))]
    return group(evs)


def fixed(rng, many):
    e = edges32()
    evs = [["defaults"]]
    small = sorted({0, 1, 2, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFF, 0xFFFFFFFE, 0x40000000, 0xC0000000, 0x04000000, 0x01FFFFFF,
                    0x02000000, 0xFE000000, 0x7FFFFFFE, 0x80000002, 0x3FFFFFFF, 0xFFFF, 0x10000, 0xFFFF0000, 0x20000, 0xFFFE0000})
    ops = ["p+i", "i+i", "c+i", "b*s"]
    for o in ops:
        evs += [[o, b4(x), b4(y)] for x in small for y in small]
        for _ in range(700 * many):
            x, y = (rng.choice(e) if rng.random() < .5 else rng.randrange(U32) for _ in "ab")
            evs.append([o, b4(x), b4(y)])
        for _ in range(500 * many):           # results next to a limit
            x = rng.randrange(U32)
            t = rng.choice([0, U32 - 1, 0x7FFFFFFF, 0x80000000]) + rng.randrange(-3, 4)
            evs.append([o, b4(x), b4(t - x)])
    for _ in range(500 * many):               # products next to the limit
        s = rng.randrange(0x40000000, U32)
        off = min(((1 << 62) // s) + rng.randrange(-2, 3), 0x7FFFFFFF)
        evs.append(["b*s", b4(0x80000000 + rng.choice([-1, 1]) * off), b4(s)])
    for x in small:
        for y in small:
            evs.append(["eq32", b4(x), b4(y)])
            evs.append(["eq16", b2(x), b2(y)])
    for x in e:
        for k in range(32):
            if rng.random() < .1 * many:
                evs.append(["eq32", b4(x), b4(x ^ (1 << k))])
                evs.append(["eq16", b2(x), b2(x ^ (1 << (k % 16)))])
    evs += [["note", [n]] for n in range(128)]
    evs += [["p79", b2(v)] for v in range(0, 65536, 1 if many > 1 else 37)] + [["p79", b2(v)] for v in (0xFFFF, 0x8000, 0x1FF, 0x200)]
    evs += [["p725", b4(v)] for v in e + [rng.randrange(U32) for _ in range(800 * many)]]
    return group(evs)


def real(rng, f, bits, scale):
    """(s, n): an input n / 2^s somewhere interesting in 0..scale (f fraction bits stored)"""
    mode = rng.randrange(8)
    if mode == 0:                       # a representable value
        s, n = f, rng.randrange(scale << f)
    elif mode == 1:                     # half way, just above, just below
        k = rng.randrange(1, 4)
        s, n = f + k + 1, ((2 * rng.randrange(scale << f) + 1) << k) + rng.choice([-1, 0, 1])
    elif mode == 2:                     # near an edge
        s = f + rng.randrange(0, 6)
        n = rng.choice([0, scale, scale // 2 if scale > 1 else 1]) * (1 << s) + rng.randrange(-6, 7)
    elif mode == 3:
        s = rng.randrange(0, 12)
        n = rng.randrange(1 << rng.randrange(1, s + 9))
    elif mode == 4:                     # far out
        s, n = rng.randrange(0, 4), rng.randrange(1 << bits)
    elif mode == 7:                     # next to half way, as near as the mantissa allows
        m = rng.choice([0, rng.randrange(8), rng.randrange(scale << f)])
        k = max(0, bits - (2 * m + 1).bit_length())
        s, n = f + 1 + k, ((2 * m + 1) << k) + rng.choice([-1, -1, 1, 0])
        if m == 0 and rng.randrange(2):
            s, n = s + 1, (1 << bits) - 1
    elif mode == 5:                     # tiny
        s, n = rng.choice([30, 40, 55, 60]), rng.randrange(1 << 20)
    else:
        s = rng.randrange(f, f + 8)
        n = rng.randrange(scale << s)
    n = abs(n)
    while n >= (1 << bits):
        n >>= 1
        s -= 1
    if s < 0:
        n, s = (1 << bits) - 1, 0
    return s, n


def reals(rng, many, ops=None):
    evs = []
    N = 700 * many
    for o, f, bits, scale, maxs in [("r79", 9, 53, 128, 99), ("r79f", 9, 24, 128, 99), ("r725", 25, 53, 128, 99), ("r725f", 25, 24, 128, 99),
                                    ("rinc", 25, 53, 64, 99), ("rincf", 25, 24, 64, 99), ("p+r", 25, 53, 128, 99), ("p+rf", 25, 24, 128, 99),
                                    ("rvel", 16, 53, 1, 16), ("rvelf", 16, 24, 1, 16), ("rctl", 32, 53, 1, 32), ("rctlf", 32, 24, 1, 32),
                                    ("rbend", 31, 53, 1, 31), ("rbendf", 20, 24, 1, 22)]:
        if ops and o not in ops:
            continue
        k = 0
        while k < N:
            s, n = real(rng, f, bits, scale)
            if s > maxs or (o == "rbendf" and n + (1 << s) >= 1 << 24) or (o == "rbend" and n + (1 << s) >= 1 << 52):
                continue
            k += 1
            neg = int(rng.random() < (.5 if o[:4] in ("rinc", "p+r", "p+rf", "rben") else .1))
            ev = [o, [neg, s], b7(n)]
            if o in ("p+r", "p+rf"):
                ev.append(b4(rng.choice([0, U32 - 1, rng.randrange(U32), rng.randrange(1000), U32 - rng.randrange(1, 1000)])))
            if o in ("rbend", "rbendf"):
                m = (1 << s) + (-n if neg else n)
                ev += [[int(m < 0)], b7(abs(m))]
            evs.append(ev)
    return group(evs)


def roundtrips(rng, many):
    e = edges32()
    evs = [[o, b2(v)] for v in (range(65536) if many > 1 else sorted({*range(0, 65536, 23), *(x & 0xFFFF for x in e)})) for o in ("rtvel", "rtp79", "asvel")]
    vs = e + [rng.randrange(U32) for _ in range(1500 * many)]
    evs += [[o, b4(v)] for v in vs for o in ("rtctl", "rtp725", "rtbend", "asctl", "asbend")]
    return group(evs)


def monotone(rng, many):
    """inputs of one kind, ascending"""
    cs = []
    lists = []
    for _ in range(12 * many):
        s = rng.randrange(4, 22)
        c = rng.choice([0, 1 << s, 1 << (s - 1), -(1 << s), 64 << s, 128 << s, -(64 << s), rng.randrange(-(1 << s), 1 << s)])
        w = rng.choice([1, 1, 3, 50])
        lists.append((s, [c + k * w for k in range(-20, 21)]))
    for s, l in lists:
        l = [v for v in l if abs(v) < 1 << 24]
        for kind in (1, 2):
            cs.append([["mono", [kind], [int(v < 0), s], b7(abs(v))] for v in l])
        for kind in range(1, 11):
            cs.append([["monou", [kind], [int(v < 0), s], b7(abs(v))] for v in l])
    cs = [c for c in cs if c]
    for kind in (20, 21, 22, 23, 24, 25, 26, 27):
        small = kind in (20, 24)
        M = 65536 if small else U32
        for c in [0, M // 2, M - 1] + [rng.randrange(M) for _ in range(6 * many)]:
            w = rng.choice([1, 1, 1, 17])
            vs = [c + k * w for k in range(-20, 21) if 0 <= c + k * w < M]
            cs.append([["monou", [kind], (b2 if small else b4)(v)] for v in vs])
        vs = sorted({rng.randrange(M) for _ in range(60)})
        cs.append([["monou", [kind], (b2 if small else b4)(v)] for v in vs])
    return cs


def sweeps(*ops):
    """every value of the 14 and 16 bit types (and every 2^-16, 2^-10 of the reals), 256 at a time"""
    n = {"sw.up14": 64, "sw.r79": 513, "sw.rvel": 257}
    return group([[o, [hi]] for o in ops for hi in range(n.get(o, 256))], 16)
