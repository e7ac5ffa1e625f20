"""Histories for the storage of SysEx data."""


def collectors(rng, n):
    cs = []
    for _ in range(n):
        kind = rng.choice([7, 8])
        pay = 6 if kind == 7 else 13
        c = [["env"], ["c.new", [kind]]]
        small = rng.random() < .5
        for _ in range(rng.randrange(3, 14)):
            r = rng.random()
            if r < .2:
                c.append(["c.lim", [rng.choice([0, 1, 5, 100, 127, 129, 1000, 5000, 16384, 16385, 20000, 70000])]])
            elif r < .25:
                c.append(["c.reset"])
            elif r < .5:
                c.append(["c.feed", [1, pay, 1]])
            elif r < .8:
                c.append(["c.feed", [2, pay, rng.choice([1, 3, 20, 200, 1000] if small else [1, 100, 2731, 3000, 9000, 20000])]])
            elif r < .92:
                c.append(["c.feed", [3, rng.randrange(2, pay + 1), 1]])
            else:
                c.append(["c.feed", [0, rng.randrange(2, pay + 1), 1]])
        cs.append(c + [["c.drop"]])
    return cs


def limits(rng):
    """one sender that never stops, under every kind of limit"""
    cs = []
    for kind, pay in ((7, 6), (8, 13)):
        for lim in (1, 2, 5, 6, 7, 64, 127, 128, 129, 255, 256, 257, 1000, 16383, 16384, 16385, 30000, 65536, 100000):
            c = [["env"], ["c.new", [kind]], ["c.lim", [lim]], ["c.feed", [1, pay, 1]]]
            for m in (1, 10, 20, 40, 100, 1000, 3000, 10000, 30000):
                c.append(["c.feed", [2, pay, m]])
            c += [["c.feed", [3, 3, 1]], ["c.feed", [0, pay, 1]], ["c.feed", [1, pay, 1]], ["c.feed", [2, pay, max(1, lim // pay - 3)]], ["c.feed", [2, pay, 1]],
                  ["c.feed", [3, 2, 1]], ["c.lim", [0]], ["c.feed", [1, pay, 1]], ["c.feed", [2, pay, 9000]], ["c.feed", [3, 2, 1]], ["c.feed", [0, pay, 1]], ["c.drop"]]
            cs.append(c)
    return cs


def parsers(rng, n):
    cs = []
    for k in range(n):
        whole, on = (1, 1) if k % 3 else (rng.randrange(2), rng.randrange(2))
        c, inside = [["env"], ["p.new", [whole, on]]], False
        for _ in range(rng.randrange(3, 12)):
            r = rng.random()
            if r < .1:
                c.append(["p.on", [rng.randrange(2)]])
            elif r < .15:
                c.append(["p.reset"])
                inside = False
            elif r < .45:
                c.append(["p.feed", [240, 1, 0]])
                c.append(["p.feed", [65, 1, 0]])
                inside = True
            elif r < .75:
                c.append(["p.feed", [65, rng.choice([1, 3, 1000, 1023, 1024, 1025, 5000, 16384, 16385, 40000, 120000]), rng.randrange(2)]])
            elif r < .92:
                c.append(["p.feed", [247, 1, 0]])
                inside = False
            else:
                c.append(["p.feed", [rng.choice([248, 254, 192, 144]), 1, 0]])
                inside = inside and c[-1][1][0] >= 248
        cs.append(c + [["p.drop"]])
    return cs


def endings(rng):
    """a long message that ends in every way there is"""
    cs = []
    for n in (10000, 17000, 40000, 120000):
        for end in ([["p.on", [0]], ["p.feed", [247, 1, 0]]], [["p.on", [0]], ["p.on", [1]], ["p.feed", [247, 1, 0]]], [["p.on", [0]], ["p.reset"]],
                    [["p.reset"]], [["p.feed", [247, 1, 0]]], [["p.feed", [240, 1, 0]]], [["p.on", [0]], ["p.feed", [240, 1, 0]]],
                    [["p.feed", [192, 1, 0]], ["p.feed", [240, 1, 0]]], [["p.on", [0]], ["p.feed", [65, 3000, 1]], ["p.feed", [247, 1, 0]]]):
            cs.append([["env"], ["p.new", [1, 1]], ["p.feed", [240, 1, 0]], ["p.feed", [65, n, 1]]] + end + [["p.on", [1]], ["p.feed", [240, 1, 0]], ["p.feed", [65, 30, 1]], ["p.feed", [247, 1, 0]], ["p.drop"]])
    return cs


def objects(rng, n):
    cs = []
    for ctor in range(6):
        for res in range(3):
            for k in (0, 1, 5, 64, 1000, 16384, 16385, 40000, 65536, 70000):
                cs.append([["env"], ["s.new", [0, res, ctor, k]], ["s.add", [0, 0, 3]], ["s.add", [0, 4, 7]], ["s.copy", [0, 1]], ["s.add", [1, 2, 4]], ["s.move", [0, 2]],
                           ["s.add", [2, 5, 2]], ["s.assign", [2, 1]], ["s.clear", [2]], ["s.add", [2, 1, 5]], ["s.drop", [1]], ["s.drop", [2]]])
                cs.append([["env"], ["s.new", [1, res, 1, k]]] + [["s.add", [1, h, max(1, k // 60)]] for h in range(6)] + [["s.drop", [1]]])
    for _ in range(n):
        c, have = [["env"]], set()
        for _ in range(rng.randrange(4, 16)):
            r, s = rng.random(), rng.randrange(3)
            if not have or r < .25:
                c.append(["s.new", [s, rng.randrange(3), rng.randrange(6), rng.choice([0, 1, 10, 100, 3000, 20000])]])
                have.add(s)
                continue
            s, t = rng.choice(sorted(have)), rng.randrange(3)
            if r < .55:
                c.append(["s.add", [s, rng.randrange(6), rng.choice([1, 2, 30, 1000])]])
            elif r < .65:
                c.append(["s.clear", [s]])
            elif r < .72:
                c.append(["s.drop", [s]])
                have.discard(s)
            elif s != t:
                if r < .82:
                    c.append(["s.copy", [s, t]])
                    have.add(t)
                elif r < .9 or t not in have:
                    c.append(["s.move", [s, t]])
                    have.discard(s)
                    have.add(t)
                else:
                    c.append(["s.assign", [s, t]])
        cs.append(c + [["s.drop", [s]] for s in sorted(have)])
    return cs
