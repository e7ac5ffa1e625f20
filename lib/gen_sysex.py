"""Inputs for the SysEx executor."""
B7 = [0, 1, 0x3F, 0x40, 0x41, 0x7E, 0x7F]
B8 = B7 + [0x80, 0x81, 0xBF, 0xC0, 0xFE, 0xFF]
IDS = [[0x41, 0, 0], [1, 0, 0], [0x7F, 0, 0], [0x7D, 0, 0], [0x7E, 0, 0], [0x40, 0, 0], [0, 0x21, 9], [0, 0, 1], [0, 1, 0],
       [0, 0x7F, 0x7F], [0, 0, 0x7F], [0, 0x7F, 0], [0, 0x20, 0x29], [0, 0x40, 0x40]]


def byte(rng, eight):
    if rng.random() < .4:
        return rng.choice(B8 if eight else B7)
    return rng.randrange(256 if eight else 128)


def data(rng, n, eight):
    return [byte(rng, eight) for _ in range(n)]


def rid(rng):
    if rng.random() < .6:
        return rng.choice(IDS)
    if rng.random() < .5:
        return [rng.randrange(1, 128), 0, 0]
    i = [0, rng.randrange(128), rng.randrange(128)]
    return i if i[1] or i[2] else [0, 1, 2]


def head(rng, eight):
    return [rng.randrange(16), rng.choice([0, 1, 127, 128, 255, rng.randrange(256)])] if eight else [rng.randrange(16)]


def segment_cases(rng, eight, lens, ids):
    """Every id and length: both segmentation calls, then reassembly by one collector used for everything."""
    s = "8" if eight else "7"
    cases = []
    for i in ids:
        c = [["new" + s]]
        for n in lens:
            d, h = data(rng, n, eight), head(rng, eight)
            c += [["seg" + s, h, i, d, [0]], ["seg" + s, h, i, d, [1]], ["send" + s, h, i, d]]
        cases.append(c)
    return cases


def long_cases(rng, eight, lens):
    s = "8" if eight else "7"
    cases = []
    for n in lens:
        c = [["new" + s]]
        d = data(rng, n, eight)
        c += [["send" + s, head(rng, eight), rid(rng), d], ["send" + s, head(rng, eight), rid(rng), data(rng, 5, eight)],
              ["send" + s, head(rng, eight), rid(rng), d[:n // 2]], ["seg" + s, head(rng, eight), rid(rng), d, [0]]]
        cases.append(c)
    return cases


def packet(rng, eight, fmt, payload, sid=7, g=None):
    g = rng.randrange(16) if g is None else g
    if eight:
        return [0x50 + g, fmt * 16 + len(payload) + 1, sid] + payload + [0] * (13 - len(payload))
    return [0x30 + g, fmt * 16 + len(payload)] + payload + [0] * (6 - len(payload))


def noise(rng, eight):
    """a packet the collector must ignore"""
    k = rng.randrange(5)
    if k == 0:
        return [0x20, 0x90, rng.randrange(128), rng.randrange(128)]
    if k == 1:   # the other SysEx
        return packet(rng, not eight, rng.randrange(4), data(rng, rng.randrange(1, 6), False))
    if k == 2:   # right type, impossible size or status
        t = 0x50 if eight else 0x30
        st = rng.choice([0x00, 0x10, 0x20, 0x30]) + rng.choice([0, 15]) if eight else rng.choice([0, 0x10, 0x20, 0x30]) + rng.randrange(7, 16)
        if rng.random() < .4:
            st = rng.randrange(0x40, 256)
        return [t + rng.randrange(16), st] + data(rng, 14 if eight else 6, False)
    if k == 3:
        t = rng.choice([0, 1, 2, 4, 6, 7, 13, 15] + ([3] if eight else [5]))
        n = [1, 1, 1, 2, 2, 4, 1, 1, 2, 2, 2, 3, 3, 4, 4, 4][t]
        return [t * 16 + rng.randrange(16)] + [rng.randrange(128) for _ in range(4 * n - 1)]
    return [0x10, 0xF8, 0, 0]


def payload(rng, eight):
    n = rng.choice([0, 1, 2, 3, 13, 12]) if eight else rng.choice([0, 1, 2, 3, 6, 6, 5])
    d = data(rng, n, eight)
    if d and rng.random() < .4:
        d[0] = rng.choice([0, 0, 0x81, 5] if eight else [0, 0x41])
    return d


def history_cases(rng, eight, n, length=24, limits=(0,), broken=.35):
    """Mostly well framed messages, broken in every way; other packets in between; resets; callbacks swapped.
    A limit is only changed while no message is under way."""
    s = "8" if eight else "7"
    cases = []
    for _ in range(n):
        c = [["new" + s]]
        sids = [rng.randrange(256), rng.randrange(256), 0]
        if limits != (0,):
            c.append(["lim" + s, [rng.choice(limits)]])
        pk = 0
        while pk < length:
            k = rng.random()
            if k < broken:
                ev = [["feed" + s, packet(rng, eight, rng.randrange(4), payload(rng, eight), rng.choice(sids))]]
            elif k < broken + .1:
                ev = [["feed" + s, noise(rng, eight)]]
            elif k < broken + .13:
                ev = [["reset" + s]]
            elif k < broken + .16:
                ev = [["cb" + s, [rng.choice([0, 1, 1, 2, 3])]]]
            else:
                sid = rng.choice(sids)
                m = rng.choice([0, 1, 2, 3, 4])
                ev = []
                if m == 0:
                    ev.append(["feed" + s, packet(rng, eight, 0, payload(rng, eight), sid)])
                else:
                    fm = [1] + [2] * (m - 1) + [3]
                    for f in fm:
                        ev.append(["feed" + s, packet(rng, eight, f, payload(rng, eight), sid)])
                        if rng.random() < .15:
                            ev.append(["feed" + s, noise(rng, eight)])
                        if eight and rng.random() < .3:   # another stream
                            ev.append(["feed" + s, packet(rng, eight, rng.choice([2, 3]), payload(rng, eight), rng.choice(sids + [(sid + 1) % 256, sid ^ 1 << rng.randrange(8), sid ^ 1 << rng.randrange(8)]))])
                        if rng.random() < .05:
                            break
            if eight and rng.random() < .2:
                ev.append(["sid8"])
            if limits != (0,) and rng.random() < .12:
                ev += [["reset" + s], ["lim" + s, [rng.choice(limits)]]]
            c += ev
            pk += len(ev)
        cases.append(c)
    return cases


def limit_sweep(rng, eight, lims, extra=16):
    """Every limit against every length around it and every packetisation offset, each followed by good messages."""
    s = "8" if eight else "7"
    cases = []
    for lim in lims:
        for i in ([0x41, 0, 0], [0, 0x21, 9]):
            c = [["new" + s], ["lim" + s, [lim]]]
            lens = list(range(max(0, lim - 3), lim + extra))
            rng.shuffle(lens)
            for n in lens:
                c.append(["send" + s, head(rng, eight), i, data(rng, n, eight)])
                c.append(["send" + s, head(rng, eight), rid(rng), data(rng, min(lim, rng.randrange(0, 8)), eight)])
            cases.append(c)
            # odd packetisation: n data bytes in packets of at most k
            for k in range(1, (14 if eight else 7)):
                c = [["new" + s], ["lim" + s, [lim]]]
                for n in (lim - 1, lim, lim + 1, lim + 2, lim + 7):
                    if n < 0:
                        continue
                    sid = rng.randrange(256)
                    body = (([0, i[0]] if i[1] == 0 and i[2] == 0 else [128 + i[1], i[2]]) if eight else
                            (i[:1] if i[1] == 0 and i[2] == 0 else i)) + data(rng, n, eight)
                    ps = [body[j:j + k] for j in range(0, len(body), k)]
                    for z, p in enumerate(ps):
                        f = 0 if len(ps) == 1 else 1 if z == 0 else 3 if z == len(ps) - 1 else 2
                        c.append(["feed" + s, packet(rng, eight, f, p, sid)])
                    c.append(["feed" + s, packet(rng, eight, 0, ([0, 0x42, 9] if eight else [0x42, 9]), 3)])
                cases.append(c)
    return cases


def limit_changes(rng, eight, n):
    """limits raised, lowered and removed between messages, after small and large messages"""
    s = "8" if eight else "7"
    cases = []
    for _ in range(n):
        c = [["new" + s]]
        for _ in range(rng.randrange(4, 10)):
            lim = rng.choice([0, 1, 2, 5, 12, 13, 30, 127, 128, 129, 256, 300, 1000])
            c.append(["lim" + s, [lim]])
            for _ in range(rng.randrange(1, 4)):
                base = lim or 140
                m = max(0, base + rng.choice([-2, -1, 0, 0, 1, 1, 2, 20]))
                c.append(["send" + s, head(rng, eight), rid(rng), data(rng, m, eight)])
            if rng.random() < .3:   # abandoned message, then reset
                c.append(["feed" + s, packet(rng, eight, 1, data(rng, 6, eight), 9)])
                c.append(["reset" + s])
        cases.append(c)
    return cases


def limit_midway(rng, eight, n):
    """limits set while a message is under way, data still to come"""
    s = "8" if eight else "7"
    full = 13 if eight else 6
    cases = []
    for _ in range(n):
        c = [["new" + s]]
        if rng.random() < .5:
            c.append(["lim" + s, [rng.choice([1, 5, 20, 40, 100])]])
        for _ in range(rng.randrange(2, 6)):
            i, m = rid(rng), rng.choice([2, 5, 6, 7, 12, 20, 26, 40, 100, 140])
            short = i[1] == 0 and i[2] == 0
            ident = ([0, i[0]] if short else [128 + i[1], i[2]]) if eight else i[:1] if short else i
            first = ident + data(rng, rng.randrange(1, full - len(ident) + 1), eight)
            rest = data(rng, m, eight)
            sid, k = rng.randrange(256), rng.choice([1, 2, full, full])
            ps = [rest[j:j + k] for j in range(0, len(rest), k)]
            c.append(["feed" + s, packet(rng, eight, 1, first, sid)])
            for z, q in enumerate(ps):
                if rng.random() < min(.5, 2 / len(ps)):
                    c.append(["lim" + s, [rng.choice([0, 0, 1, 3, m, m + 2, m + 3, m + 5, m + 20, 200, 1000])]])
                c.append(["feed" + s, packet(rng, eight, 3 if z == len(ps) - 1 else 2, q, sid)])
        c += [["lim" + s, [0]], ["send" + s, head(rng, eight), rid(rng), data(rng, 9, eight)]]
        cases.append(c)
    return cases


def limit_large(rng, eight, lims):
    """large limits, after small and large messages, repeatedly"""
    s = "8" if eight else "7"
    cases = []
    for lim in lims:
        c = [["new" + s], ["lim" + s, [lim]]]
        for n in (4, lim, lim + 1, 2, lim, lim + rng.choice([2, 6, 13, 300])):
            c.append(["send" + s, head(rng, eight), rid(rng), data(rng, n, eight)])
        c.append(["lim" + s, [rng.choice([lim - 1, lim // 2])]])
        c.append(["send" + s, head(rng, eight), rid(rng), data(rng, lim, eight)])
        c += [["lim" + s, [0]], ["send" + s, head(rng, eight), rid(rng), data(rng, lim + 7, eight)]]
        cases.append(c)
    return cases


def limit_huge(rng, eight, lims=(65535, 65536, 65537, 65541, 65600, 131072, 131077, 1 << 20, (1 << 24) + 3)):
    """limits that small messages are nowhere near"""
    s = "8" if eight else "7"
    cases = []
    for lim in lims:
        c = [["new" + s], ["lim" + s, [lim]]]
        for n in (0, 1, 3, 6, 7, 64, 129, 300, 70):
            c.append(["send" + s, head(rng, eight), rid(rng), data(rng, n, eight)])
        c += [["lim" + s, [5]], ["send" + s, head(rng, eight), rid(rng), data(rng, 5, eight)], ["send" + s, head(rng, eight), rid(rng), data(rng, 6, eight)],
              ["lim" + s, [lim]], ["send" + s, head(rng, eight), rid(rng), data(rng, 200, eight)]]
        cases.append(c)
    return cases


def codec_large(rng):
    """Messages far longer than any counter narrower than it should be: one odd byte anywhere, integers at any position"""
    cases = []

    def spots(n): return range(n) if n <= 20 else sorted({0, 1, 7, 8, 15, 16, n // 2, n - 2, n - 1, n - 256, n - 255, min(n - 1, 255), min(n - 1, 256), rng.randrange(n), rng.randrange(n)})
    for n in list(range(1, 21)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000]:
        base = data(rng, n, False)
        c = [["sx", rid(rng), base, [rng.randrange(5)]], ["info"]]
        i = rid(rng)
        for j in spots(n):
            if j < 0:
                continue
            odd = list(base)
            odd[j] |= 0x80
            c += [["sx", i, odd, [rng.randrange(5)]], ["info"]]
            dif = list(base)
            dif[j] ^= 1 << rng.randrange(7)
            c += [["eq", i, base, i, dif], ["eq", i, dif, i, base]]
        c += [["eq", i, base, i, base], ["eq", i, base, i, base[:-1]], ["eq", i, base + [0], i, base], ["eq", i, base + data(rng, 256, False), i, base]]
        cases.append(c)
    for n in (126, 127, 128, 250, 253, 254, 255, 256, 257, 300, 511, 600, 1000, 4095, 16382, 16384, 32767, 65534, 65536, 66000):
        for k in range(5):
            c = [["sx", rid(rng), data(rng, n, False), [rng.randrange(5)]]]
            v = rng.randrange(1 << 28)
            c += [[["add7", [rng.randrange(128)]], ["info"]], [["add14", [rng.randrange(16384)]], ["get14", [n]], ["get14", [n - 1]]],
                  [["add28", [v]], ["get28", [n]], ["get28", [n - 3]]], [["add32", [rng.randrange(256) for _ in range(4)]], ["get32", [n]], ["get32", [n - 4]]],
                  [["addi", [0, 0x21, 9], [rng.randrange(16384), rng.randrange(16384), v]], ["geti", [n]], ["geti", [n - 10]]]][k]
            c += [["info"]]
            cases.append(c)
    return cases


def codec_cases(rng, n):
    V14 = [0, 1, 127, 128, 129, 255, 256, 8191, 8192, 16255, 16256, 16383]
    V28 = [0, 1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455, 134217728, 0x7F << 14, 0x7F << 21]
    cases = []
    for _ in range(n):
        d0 = data(rng, rng.choice([0, 0, 1, 2, 5, 17]), rng.random() < .15)
        i = rng.choice([[0, 0, 0], rid(rng), rid(rng), [0x80, 0, 0], [1, 2, 3], [rng.choice([0x141, 0x8001, 0xFF7F]), 0, 0]])
        c = [["sx", i, d0, [rng.randrange(5)]], ["info"]]
        ln = len(d0)
        for _ in range(rng.randrange(3, 12)):
            k = rng.randrange(6)
            if k == 0:
                c += [["add7", [rng.choice(B7 + [rng.randrange(128)])]]]
                ln += 1
            elif k == 1:
                c += [["add14", [rng.choice(V14 + [rng.randrange(16384)])]], ["get14", [ln]]]
                ln += 2
            elif k == 2:
                c += [["add28", [rng.choice(V28 + [rng.randrange(1 << 28)] * 4)]], ["get28", [ln]]]
                ln += 4
            elif k == 3:
                c += [["add32", [rng.choice([0, 0x0F, 0x10, 0x7F, 0x80, 0xFF, 0xF0, rng.randrange(256)])] + [rng.choice([0, 1, 0x7F, 0x80, 0xFF, rng.randrange(256)]) for _ in range(3)]], ["get32", [ln]]]
                ln += 5
            elif k == 4:
                x = data(rng, rng.randrange(1, 9), False)
                c += [["addd", x]]
                ln += len(x)
            else:
                c += [["addi", rid(rng), [rng.choice(V14), rng.choice(V14 + [rng.randrange(16384)]), rng.choice(V28 + [rng.randrange(1 << 28)])]],
                      ["geti", [ln]]]
                ln += 11
            if all(x < 128 for x in d0):
                if ln >= 2 and rng.random() < .3:
                    c.append(["get14", [rng.randrange(ln - 1)]])
                if ln >= 4 and rng.random() < .3:
                    c.append(["get28", [rng.randrange(ln - 3)]])
                if ln >= 5 and rng.random() < .3:
                    c.append(["get32", [rng.randrange(ln - 4)]])
                if ln >= 11 and rng.random() < .3:
                    c.append(["geti", [rng.randrange(ln - 10)]])
            if rng.random() < .08:
                c += [["clear"], ["info"]]
                ln = 0
        c.append(["info"])
        x, y = (rid(rng), data(rng, rng.randrange(4), False)), (rid(rng), data(rng, rng.randrange(4), False))
        for p, q in ((x, y), (x, x), (x, (x[0], y[1])), (x, (y[0], x[1])), (x, (x[0], x[1] + [0]))):
            c.append(["eq", p[0], p[1], q[0], q[1]])
        cases.append(c)
    return cases
