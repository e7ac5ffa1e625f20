"""Histories of several objects side by side: used, copied, assigned, moved, exchanged, dropped at any moment."""
import gen_calls as gk
import gen_stream as gs

KINDS = [1, 1, 2, 3, 4, 5]


def items(rng, kind, clock):
    if kind == 1:
        bs = gs.stream(rng, rng.choice([gs.ALLW, gs.SXW, gs.MSGW]), rng.choice([1, 2, 3]), .08)
        if rng.random() < .5 and len(bs) > 1:
            bs = bs[:rng.randrange(1, len(bs))]           # stop in the middle
        return [bs[:60]]
    if kind in (2, 3):
        return gk.packets(rng, kind == 3, rng.choice([1, 1, 2, 3]))
    out = []
    for _ in range(rng.choice([1, 1, 2])):
        clock[0] += rng.choice([0, 5, 500, 20000, 100000])
        out.append([rng.randrange(2), clock[0] + 5 * rng.randrange(4000), (clock[0] // 160 + rng.choice([0, 0, 1, 50, 40000])) % 65536])
    return out


def acts(rng, kind):
    if kind == 1:
        return [rng.choice([[1], [2, 0], [2, 1], [2, 1], [3, rng.randrange(16)]])]
    if kind in (2, 3):
        return rng.choice([[[1]], [[1], [5, rng.choice([0, 1, 4, 10, 100, 300])]], [[6, rng.randrange(1, 100)]]])
    if kind == 4:
        return [rng.choice([[7], [8, *[rng.randrange(256) for _ in range(rng.choice([1, 3, 40]))]]])]
    return [[1]]


def new(rng, i, kind):
    if kind == 1:
        return ["new", [i, 1, rng.randrange(16), rng.randrange(2), rng.randrange(1, 100)]]
    if kind in (2, 3):
        return ["new", [i, kind, rng.randrange(1, 100)]]
    if kind == 4:
        return ["new", [i, 4], rng.choice([[65, 0, 0], [0, 32, 1], [0, 0, 0]]) + [rng.randrange(256) for _ in range(rng.choice([0, 1, 5, 30, 200]))]]
    return ["new", [i, 5]]


def history(rng, n):
    kind = {}
    few = rng.sample(KINDS, 2)
    clock = [1000000]
    c = []
    while len(c) < n:
        i, j = rng.randrange(1, 5), rng.randrange(1, 5)
        r = rng.random()
        if i not in kind:
            if r < .4 and j in kind:
                op = rng.choice(["copy", "copy", "move"])
                c.append([op, [i, j]])
                kind[i] = kind[j]
                if op == "move":
                    del kind[j]
            else:
                kind[i] = rng.choice(few)
                c.append(new(rng, i, kind[i]))
            continue
        if r < .5 and kind[i] != 4:
            keep = j if j != i and rng.random() < .4 and kind.get(j) in (None, 4) and kind[i] != 5 else 0
            c.append(["feed", [i, keep], *items(rng, kind[i], clock)])
            if keep and kind.get(keep) is None:       # only there if a message came: make sure that it is
                c.insert(len(c) - 1, new(rng, keep, 4))
                kind[keep] = 4
        elif r < .6:
            c.append(["act", [i], *acts(rng, kind[i])])
        elif r < .7:
            c.append(["read", [i]])
        elif r < .74:
            c.append(["shared", [rng.randrange(16)]])
            c.append(["tick", [0]])
        elif r < .78:
            c.append(["drop", [i]])
            del kind[i]
        elif i != j and j in kind and kind[j] == kind[i]:
            if kind[i] == 4 and rng.random() < .4:
                c.append(["eq", [i, j]])
            else:
                op = rng.choice(["assign", "assign", "massign", "exch"])
                c.append([op, [i, j]])
                if op == "massign":
                    del kind[j]
        elif i != j and rng.random() < .4:
            op = rng.choice(["copy", "copy", "move"])
            if j in kind:
                c.append([op, [i, j]])
                kind[i] = kind[j]
                if op == "move":
                    del kind[j]
    return c + [["read", [i]] for i in kind]


def at_every_point(rng):
    """a copy or move at every point of a message; original and copy then end it differently"""
    cases = []
    for kind, msgs in ((1, [[0x92, 60, 1, 61], [0xF2, 1, 2], [0xF0] + list(range(1, 15)) + [0xF7], [0xF0, 0, 32, 1, 5, 6, 7, 0xF7], [0xF0, 65, 1, 0xF8, 2, 0xF7]]),
                       (2, [[gk.gx.packet(rng, False, f, d, 0) for f, d in ((1, [67, 1, 2, 3, 4, 5]), (2, [6, 7]), (2, []), (3, [8]))], [gk.gx.packet(rng, False, f, d, 0) for f, d in ((1, [0]), (2, [33]), (2, [9, 1]), (3, [2, 3]))]]),
                       (3, [[gk.gx.packet(rng, True, f, d, 9) for f, d in ((1, [0, 67, 1, 2, 3, 4, 5]), (2, [6, 7]), (2, []), (3, [8]))], [gk.gx.packet(rng, True, f, d, 9) for f, d in ((1, [0x81]), (2, [33]), (2, [9, 1]), (3, [2, 3]))]])):
        for whole in ((0, 1) if kind == 1 else (0,)):
            for m in msgs:
                for k in range(len(m) + 1):
                    for op in ("copy", "move", "assign", "massign", "exch"):
                        f = lambda i, xs: ["feed", [i, 0], xs] if kind == 1 else ["feed", [i, 0], *xs]
                        nw = lambda i: ["new", [i, 1, 3 + i, whole, 10 + i]] if kind == 1 else ["new", [i, kind, 10 + i]]
                        other = rng.choice(msgs)
                        c = [nw(1)]
                        if k:
                            c.append(f(1, m[:k]))
                        if op in ("assign", "massign", "exch"):
                            c += [nw(2), f(2, other[:rng.randrange(1, len(other) + 1)])]
                        c.append([op, [2, 1]])
                        if op in ("copy", "assign"):
                            c.append(rng.choice([["act", [1], [1]], f(1, other), f(1, m[k:] + m if k < len(m) else m)]))
                        if k < len(m):
                            c.append(f(2, m[k:]))
                        c.append(f(2, m))
                        if op in ("copy", "assign", "exch"):
                            c += [f(1, m[k:] or m), f(1, other)]
                        cases.append(c)
    return cases


def side_by_side(rng, n, length):
    return [history(rng, length) for _ in range(n)]


def long_ones(rng, big):
    """long messages, copied in every way while under way and afterwards"""
    cases = []
    for n in (300, 1100, 5000) + big:
        d = [rng.randrange(128) for _ in range(n)]
        for op in ("copy", "assign", "move", "massign", "exch"):
            made = [["new", [2, 4], [65, 0, 0, 1, 2]]] if op in ("assign", "massign", "exch") else []
            both = op in ("copy", "assign", "exch")
            cases.append([["new", [1, 4], [0, 32, 1] + d]] + made + [[op, [2, 1]], ["read", [2]]] + [["read", [1]], ["act", [1], [8, 5]], ["eq", [1, 2]]] * both + [["act", [2], [8, 9]], ["read", [2]]])
            k = rng.randrange(n)
            made = [["new", [2, 1, 4, 1, 12]], ["feed", [2, 0], [0xF0, 1, 2, 3]]] if made else []
            cases.append([["new", [1, 1, 3, 1, 11]], ["feed", [1, 0], [0xF0, 0, 32, 1] + d[:k]]] + made + [[op, [2, 1]]] +
                         [["feed", [1, 0], [7, 0xF7]]] * both + [["feed", [2, 3], d[k:] + [0xF7]], ["feed", [2, 0], [0xF0, 1, 5, 6, 0xF7, 0xF0, 2, 0xF7]], ["read", [3]]])
    return cases
