"""Histories in which callbacks act on their caller or throw, and in which storage runs out."""
import gen_stream as gs
import gen_sysex as gx


def acts(rng, kind, whole):
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        if r < .35:
            out.append([4])
        elif r < .7:
            out.append([1])
        elif kind == "p":
            out.append(rng.choice([[2, 0], [2, 1]] + [[3, rng.randrange(16)]] * (2 * whole)))
        else:
            out.append([5, rng.choice([0, 1, 3, 6, 10, 20, 100])])
    return out


def parsers(rng, n):
    """every kind of stream; the callback acts at any delivery"""
    cases = []
    for _ in range(n):
        whole = rng.randrange(2)
        c = [["pnew", [rng.randrange(16), whole]]]
        bs = gs.stream(rng, rng.choice([gs.ALLW, gs.SXW, gs.MSGW]), 10, .08)
        armed = 0
        for e in gs.chunks(rng, bs, 40):
            if rng.random() < .4:
                c.append(["arm", [rng.choice([1, 1, 1, 2, 3, 5])]] + acts(rng, "p", whole))
            c.append(["pfeed", e[1], e[2]])
            if rng.random() < .12:
                c.append(["pact", rng.choice([[1], [2, 1], [2, 1], [2, 0]])])
        cases.append(c)
    return cases


def every_delivery(rng):
    """each delivery of a stream in turn: throw, reset, both; then whatever is left, and new messages"""
    cases = []
    tail = [[0xF0] + list(range(1, 9)) + [0xF7], [0x91, 1, 2, 3, 4], [0xF0, 0x7D, 5, 0xF7], [0xF3, 5, 6], [0xF0, 0, 1, 2, 3, 0xF7]]
    bases = [[0xF0] + list(range(1, n + 1)) + [0xF7] for n in (1, 5, 6, 7, 11, 12, 13, 18, 19, 30)] + [
        [0x90, 60, 1, 61, 2, 62, 3], [0xC2, 1, 2, 3], [0xF2, 1, 2], [0xF6, 1, 2], [0xF8, 0xF0, 1, 0xFA, 2, 3, 4, 5, 6, 0xFB, 7, 0xF7, 0xFC],
        [0x90, 0xF8, 60, 0xFE, 1, 61, 0xFF, 2], [0xF0, 1, 2, 3, 4, 5, 6, 0xF6, 7, 8, 0xF7, 0x80, 1, 2], [0xF0] + list(range(1, 20)) + [0xF0] + list(range(30, 50)) + [0xF7]]
    for whole in (0, 1):
        for base in bases:
            for n in range(1, 8):
                for a in ([[4]], [[1]], [[1], [4]], [[4], [2, 0]], [[2, 0], [1]]):
                    c = [["pnew", [4, whole]], ["arm", [n]] + a, ["pfeed", [0], base]]
                    if n % 2:
                        c = [["pnew", [4, whole]], ["arm", [n]] + a] + [["pfeed", [k % 3], [b]] for k, b in enumerate(base)]
                    c += [["pact", [2, 1]], ["pfeed", [1], [7, 8, 9] * (n % 3) + rng.choice(tail)], ["pfeed", [2], [0xF7] + rng.choice(tail)], ["pfeed", [1], rng.choice(tail)]]
                    cases.append(c)
    return cases


def packets(rng, eight, n):
    """messages, well formed or cut, of one stream"""
    out, k = [], 0
    full = 13 if eight else 6
    while len(out) < n:
        sid = rng.choice([7, 7, 7, 8])
        ln = rng.choice([0, 1, 2, 3, 5, full - 1, full, full])
        f = rng.choice([0, 0, 1, 1, 2, 2, 3, 3])
        if eight and f in (0, 1):
            body = [[0, rng.randrange(1, 128)], [0x80 + rng.randrange(128), rng.randrange(128)]][rng.randrange(2)] + gx.data(rng, max(0, ln - 2), True)
            if rng.random() < .1:
                body = body[:rng.randrange(2)]
        else:
            body = gx.data(rng, ln, eight)
            if f in (0, 1) and body and rng.random() < .3:
                body[0] = 0
        if rng.random() < .07:
            out.append([0x20, 0x90, 1, 2])
        out.append(gx.packet(rng, eight, f, body, sid))
    return out


def collectors(rng, n):
    cases = []
    for k in range(n):
        eight = k % 2 == 1
        s = "78"[eight]
        c = [[s + "new"]]
        if rng.random() < .3:
            c.append([s + "act", [5, rng.choice([3, 10, 40])]])
        ps, i = packets(rng, eight, 24), 0
        while i < len(ps):
            if rng.random() < .5:
                c.append(["arm", [rng.choice([1, 1, 1, 2])]] + acts(rng, s, 0))
            m = rng.choice([1, 1, 2, 4])
            c.append([s + "feed"] + ps[i:i + m])
            if rng.random() < .08:
                c.append([s + "act", [1]])
            i += m
        cases.append(c)
    return cases


def starved_parsers(rng, n):
    """messages that grow past every size at which storage is taken, with too little of it for a while"""
    cases = []
    for _ in range(n):
        c = [["pnew", [rng.randrange(16), 1]]]
        for _ in range(rng.randrange(2, 6)):
            ln = rng.choice([0, 1, 2, 3, 4, 20, 130, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 2052, 3000, 4100, 5000])
            body = [rng.randrange(128) for _ in range(ln)]
            if body and rng.random() < .3:
                body[0] = 0
            bs = [0xF0] + body + rng.choice([[0xF7]] * 6 + [[0xF6], [0x90, 1, 2], []])
            cuts = sorted({0, len(bs)} | {rng.randrange(len(bs) + 1) for _ in range(rng.randrange(4))} | ({1, 2} if rng.random() < .3 else set()))
            for i, j in zip(cuts, cuts[1:]):
                c.append(["budget", [rng.choice([-1, -1, -1, 0, 0, 16, 900, 1024, 1500, 2048, 4096])]])
                c.append(["pfeed", [0], bs[i:j]])
            if rng.random() < .3:
                c.append(["pfeed", [0], rng.choice([[0xF8], [0x90, 1, 2, 3, 4], [0xF7], [5, 6], [0xF0, 0x7D, 1, 0xF7]])])
            if rng.random() < .1:
                c.append(["pact", [1]])
        c += [["budget", [-1]], ["pfeed", [0], [0xF0, 0x41, 1, 2, 0xF7]], ["pfeed", [0], [0x90, 1, 2]]]
        cases.append(c)
    return cases


def starved_collectors(rng, n):
    cases = []
    for k in range(n):
        eight = k % 2 == 1
        s, full = "78"[eight], 13 if eight else 6
        c = [[s + "new"]]
        for _ in range(rng.randrange(2, 6)):
            m = rng.choice([0, 0, 1, 2, 5, 10, 21, 22, 23, 43, 64, 100, 200])
            sid = rng.choice([7, 8])
            first = ([[0, rng.randrange(1, 128)], [0x81, 2]][rng.randrange(2)] if eight else rng.choice([[65], [0, 1, 2]])) + gx.data(rng, rng.randrange(4), eight)
            last = gx.data(rng, rng.randrange(full + 1), eight)
            if m == 0:
                ps = [gx.packet(rng, eight, 0, first, sid)]
            else:
                ps = [gx.packet(rng, eight, 1, first, sid)] + [gx.packet(rng, eight, 2, gx.data(rng, full, eight), sid) for _ in range(m - 1)] + [gx.packet(rng, eight, 3, last, sid)]
            cuts = sorted({0, len(ps)} | {rng.randrange(len(ps) + 1) for _ in range(rng.randrange(4))})
            for i, j in zip(cuts, cuts[1:]):
                c.append(["budget", [rng.choice([-1, -1, -1, 0, 0, 8, 100, 128, 200, 300, 600])]])
                c.append([s + "feed"] + ps[i:j])
            if rng.random() < .1:
                c.append([s + "act", [1]])
        c += [["budget", [-1]], [s + "feed", gx.packet(rng, eight, 3, [1], 7), gx.packet(rng, eight, 0, [0, 65, 66, 67], 7)]]
        cases.append(c)
    return cases
