"""Histories for the JR clock follower. Times in units of 200 ns, always whole microseconds (multiples of 5)."""
TICK = 160


def history(rng, n, ordered):
    sent, rcv, last = rng.randrange(200000), 0, None
    drift = rng.choice([1.0, 1.0, 1.0005, 0.9995, 1.01, 0.99])
    jit = rng.choice([0, 50, 1000, 5000, 20000, 100000])
    c = [["new"]]
    base = rng.randrange(0, 1000) * 5
    for k in range(n):
        gap = rng.choice([0, 0, 1, 2, 10, 31, 100, 600, 3000, rng.randrange(7000)])
        if last is not None and sent + gap - last > 65500:
            gap = 0
        sent += gap
        arr = int(sent * TICK * drift) + base + (rng.randrange(jit) if jit else 0)
        arr -= arr % 5
        rcv = max(rcv, arr) if ordered else max(0, arr - rng.choice([0, 0, 500, 5000]))
        ts = sent % 65536
        if not ordered and rng.random() < .2:
            ts = rng.choice([0, 1, 65535, 32768, rng.randrange(65536)])
        clock = rng.random() < .35 or (last is not None and sent - last > 60000)
        if clock:
            c.append(["clock", [rcv, ts]])
            last = sent
        else:
            c.append(["sched", [rcv, ts]])
        if not ordered and rng.random() < .04:
            c.append(rng.choice([["reset"], ["offset", [rng.choice([0, 5, 10000, 12000, 100000])]]]))
            last = None if c[-1][0] == "reset" else last
        if rcv > 1200000000:
            break
    return c


def cases(rng, n, length):
    return [history(rng, length, rng.random() < .5) for _ in range(n)]


def edges(rng):
    """small systematic histories: two clocks around early / exact / late, then messages, with wrap"""
    cs = []
    for ts0 in (0, 1, 30000, 65535):
        for dts in (0, 1, 100, 32767, 32768, 65535):
            for off in (-20000, -8335, -8330, -5, 0, 5, 8330, 8335, 8340, 20000, 100000):
                t0 = 1000000
                t1 = t0 + dts * TICK + off
                if t1 < 0:
                    continue
                c = [["new"], ["sched", [5, 77]], ["clock", [t0, ts0]], ["sched", [t0 + 5, (ts0 + 3) % 65536]],
                     ["clock", [t1, (ts0 + dts) % 65536]]]
                for k in (0, 1, 200, 65535):
                    c.append(["sched", [t1 + 10, (ts0 + dts + k) % 65536]])
                c.append(["clock", [t1 + 3000 * TICK, (ts0 + dts + 3000) % 65536]])
                c += [["sched", [t1, (ts0 + dts + 3001) % 65536]], ["reset"], ["sched", [t1 + 15, 9]], ["clock", [t1 + 500, 4]],
                      ["sched", [t1 + 505, 5]]]
                cs.append(c)
    d = [["new"]]
    for x in (0, 1, 2, 100, 32767, 32768, 65534, 65535):
        for y in (0, 1, 2, 100, 32767, 32768, 65534, 65535):
            d.append(["diff", [x, y]])
    cs.append(d)
    return cs


def fine(rng, n):
    """histories in units of 1 ns, within a second"""
    cs = []
    for _ in range(n):
        c, ts0, sent = [["nnew"]], rng.randrange(65536), 0
        jit = rng.choice([3, 50, 1000, 40000, 3000000, 40000000])
        base = rng.randrange(10000)
        c += [["sched", [rng.randrange(1000), rng.randrange(65536)]]] * rng.randrange(2)
        for k in range(rng.randrange(4, 14)):
            sent += rng.choice([0, 1, 2, 31, 600, rng.randrange(2500)])
            t = base + sent * 32000 + rng.randrange(-jit if k > 3 else 0, jit)
            c.append([rng.choice(["clock", "clock", "sched"]), [max(0, t), (ts0 + sent) % 65536]])
            if rng.random() < .03:
                c.append(rng.choice([["reset"], ["offset", [rng.choice([0, 1, 1999999, 2000001, rng.randrange(30000000)])]]]))
        cs.append(c)
    return cs


def born(rng):
    """the first clocks and messages at, just before and just after the construction of the follower"""
    cs = []
    for new in ("new", "nnew"):
        tick = TICK if new == "new" else 32000
        for at in (0, 5, 1000000):
            for d in (-5, 0, 5):
                for ts in (0, 7, 65535):
                    if at + d < 0:
                        continue
                    for after in ([], [["reset"]]):
                        c = [[new, [at]]] + after + [["clock", [at + d, ts]], ["sched", [at + d, (ts + 3) % 65536]], ["sched", [at + d + 500, (ts + 9) % 65536]],
                                                     ["clock", [at + d + 10 * tick + 55, (ts + 10) % 65536]], ["sched", [at + d + 10 * tick + 60, (ts + 11) % 65536]]]
                        # a reference that comes back to the time of construction: an early clock
                        c2 = [[new, [at + 10 * tick]]] + after + [["clock", [at + 9 * tick, ts]], ["clock", [at + 10 * tick, (ts + 50) % 65536]],
                                                                 ["sched", [at + 10 * tick + 5, (ts + 55) % 65536]], ["clock", [at + 12 * tick, (ts + 52) % 65536]],
                                                                 ["sched", [at + 12 * tick, (ts + 53) % 65536]]]
                        # and an on-time one
                        c3 = [[new, [at + 10 * tick]]] + after + [["clock", [at, ts]], ["clock", [at + 10 * tick + 5, (ts + 10) % 65536]],
                                                                 ["sched", [at + 10 * tick + 5, (ts + 15) % 65536]], ["clock", [at + 20 * tick, (ts + 20) % 65536]]]
                        cs += [c, c2, c3]
    return cs


def readings(rng, n):
    """readings of the clock, as they are and in messages"""
    cs = []
    ev = lambda h, k, ns: ["now", [h, k, ns]] if rng.random() < .6 else ["emit", [h, k, ns], [rng.randrange(2)]]
    for step in (1, 2, 255, 256, 257, 4095, 16383, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 131071):
        cs.append([ev(0, step * k, rng.choice([0, 0, 1, 31999])) for k in range(40)])
    cs.append([["now", [0, k // 8, (0, 1, 999, 1000, 15999, 16000, 31000, 31999)[k % 8]]] for k in range(400)])
    cs.append([["now", [0, 65500 + k // 2, 31999 * (k % 2)]] for k in range(150)])
    for h in (0, 1, 2, 9, 10, 19, 20, 24, 1000, 40000):
        cs.append([["now", [0, 0, 0]], ["now", [h, 0, 0]], ["now", [h, 1, 0]], ["emit", [h, 70000, 0], [0]], ["emit", [h + 1, 5, 16000], [1]]])
    for _ in range(n):
        h, k, c = 0, 0, [ev(0, 0, 0)]
        for _ in range(rng.randrange(3, 25)):
            k += rng.choice([0, 1, 2, 100, 3000, rng.randrange(65536), rng.randrange(200000)])
            h += rng.choice([0] * 12 + [1, 30])
            c.append(ev(h, k, rng.choice([0, 1, 31999, rng.randrange(32000)])))
        last = (-1, -1, -1)
        out = []
        for e in c:                                     # time does not go back
            t = tuple(e[1])
            if t >= last:
                out.append(e)
                last = t
        cs.append(out)
    return cs


def differences(rng, n):
    d = []
    for x in (0, 1, 2, 100, 255, 256, 32767, 32768, 65534, 65535):
        for y in (0, 1, 2, 100, 255, 256, 32767, 32768, 65534, 65535):
            d.append(["diff", [x, y]])
    return [d] + [[["diff", [rng.randrange(65536), rng.randrange(65536)]] for _ in range(100)] for _ in range(n)]
