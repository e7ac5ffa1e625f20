"""Inputs for the byte stream executor (cases only: no expectations)."""
DB = [0, 1, 2, 0x3F, 0x40, 0x41, 0x7E, 0x7F]
RT = [0xF8, 0xFA, 0xFB, 0xFC, 0xFE, 0xFF, 0xF9, 0xFD]


def need(s):
    if s < 0xF0:
        return 1 if s >> 4 in (0xC, 0xD) else 2
    return {0xF1: 1, 0xF3: 1, 0xF2: 2}.get(s, 0)


def d(rng):
    return rng.choice(DB) if rng.random() < .5 else rng.randrange(128)


def sysex_len(rng):
    return rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14, 18, 19, 24, 25]) if rng.random() < .8 else rng.randrange(60)


def sysex_body(rng, n):
    b = [d(rng) for _ in range(n)]
    if b and rng.random() < .35:
        b[0] = 0
    return b


def tokens(rng, w):
    """One syntactic unit of a byte stream, well formed or not."""
    k = rng.choices(list(w), list(w.values()))[0]
    if k == "voice":
        s = rng.randrange(0x80, 0xF0)
        out = [s]
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            out += [d(rng) for _ in range(need(s))]
        return out
    if k == "vpart":
        s = rng.randrange(0x80, 0xF0)
        return [s] + [d(rng) for _ in range(rng.randrange(need(s)))]
    if k == "common":
        s = rng.choice([0xF1, 0xF2, 0xF3, 0xF6])
        return [s] + [d(rng) for _ in range(need(s))]
    if k == "cpart":
        s = rng.choice([0xF1, 0xF2, 0xF3])
        return [s] + [d(rng) for _ in range(rng.randrange(need(s)))]
    if k == "undef":
        return [rng.choice([0xF4, 0xF5, 0xF7])]
    if k == "stray":
        return [d(rng) for _ in range(rng.randrange(1, 5))]
    if k == "sysex":
        return [0xF0] + sysex_body(rng, sysex_len(rng)) + [0xF7]
    if k == "sxpart":
        return [0xF0] + sysex_body(rng, sysex_len(rng))
    if k == "f7":
        return [0xF7]
    if k == "any":
        return [rng.randrange(256) for _ in range(rng.randrange(1, 6))]
    raise KeyError(k)


def stream(rng, w, units, prt):
    out = []
    for _ in range(units):
        for b in tokens(rng, w):
            while rng.random() < prt:
                out.append(rng.choice(RT))
            out.append(b)
    return out


def chunks(rng, bs, maxlen):
    """feed events with random chunk borders and overloads"""
    ev, i = [], 0
    while i < len(bs):
        n = rng.choice([1, 1, 2, 3, 5, 8, rng.randrange(1, maxlen + 1)])
        ev.append(["feed", [rng.randrange(3)], bs[i:i + n]])
        i += n
    return ev


ALLW = {"voice": 6, "vpart": 2, "common": 3, "cpart": 2, "undef": 2, "stray": 2, "sysex": 5, "sxpart": 3, "f7": 1, "any": 1}
MSGW = {"voice": 10, "vpart": 3, "common": 4, "cpart": 2, "undef": 2, "stray": 2, "sysex": 2, "sxpart": 1, "any": 1}
SXW = {"sysex": 10, "sxpart": 4, "voice": 2, "common": 2, "undef": 1, "stray": 1, "f7": 1}


def new(rng, whole=None, on=1, group=None):
    hg = rng.randrange(2) if group is None else 1
    return ["newparser", [hg, rng.randrange(16) if group is None else group, rng.randrange(2) if whole is None else whole, on]]


def random_cases(rng, n, w, units=8, prt=.1, whole=None, control=0.0, pon=1.0):
    cases = []
    for _ in range(n):
        c = [new(rng, whole, 1 if rng.random() < pon else 0)]
        for e in chunks(rng, stream(rng, w, units, prt), 40):
            c.append(e)
            if rng.random() < control:
                c.append(rng.choice([["reset"], ["group", [rng.randrange(16)]], ["enable", [0]], ["enable", [1]],
                                     ["enable", [1]], ["query"]]))
        cases.append(c)
    return cases


def exhaustive_messages(rng):
    """Every status byte with boundary data, complete, running and interrupted by every other class of byte."""
    cases = []
    for s in range(0x80, 0x100):
        if s in (0xF0,):
            continue
        n = need(s)
        evs = [new(rng)]
        for a in DB:
            for b in (DB if n == 2 else [0]):
                evs.append(["feed", [rng.randrange(3)], [s] + [a, b][:n]])
        cases.append(evs)
        evs = [new(rng)]
        evs.append(["feed", [0], [s]])
        for k in range(12):                       # running status (or stray data)
            evs.append(["feed", [0], [d(rng)]])
        for t in [0x80, 0x9F, 0xC3, 0xD0, 0xE1, 0xF1, 0xF2, 0xF3, 0xF4, 0xF5, 0xF6, 0xF7, 0xF8, 0xF9, 0xFD, 0xFE, 0xF0]:
            for k in range(3):                    # s with k data bytes, t, then data
                evs.append(["feed", [1], [s] + [d(rng) for _ in range(k)]])
                evs.append(["feed", [1], [t]])
                evs.append(["feed", [1], [d(rng) for _ in range(5)] + ([0xF7] if t == 0xF0 else [])])
        cases.append(evs)
    return cases


def realtime_everywhere(rng, whole):
    """A set of base streams, every realtime byte inserted at every position, one byte at a time."""
    bases = [[0x90, 60, 100], [0xC5, 3, 4, 5], [0xB1, 7, 1, 7, 2], [0xF2, 1, 2], [0xF1, 5], [0xF3, 9], [0xF6],
             [0xF0, 0x7E, 1, 2, 0xF7], [0xF0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 0xF7], [0xF0, 0xF7, 1],
             [0xF0, 0x41, 1, 2, 3, 4, 5, 0xF7], [0xF0, 1, 2, 0x90, 1, 2], [0xF4, 1, 2], [1, 2, 0xE0, 3, 4, 5, 6],
             [0xF0, 0, 0xF7], [0xF0, 0, 1, 0xF7], [0xF0, 0, 0, 1, 0xF7]]
    cases = []
    for g in (0, 11):
        for base in bases:
            for rt in RT:
                for pos in range(len(base) + 1):
                    bs = base[:pos] + [rt] + base[pos:]
                    cases.append([["newparser", [1, g, whole, 1]], ["feed", [0], base[:1]], ["reset"],
                                  ["feed", [pos % 3], bs], ["feed", [1], [rt] + base], ["feed", [2], [5, 6, 7]]])
    return cases


def sysex_sweep(rng, whole, lens):
    """SysEx of every length; cut short at every kind of byte; followed by another one."""
    cases = []
    for n in lens:
        for first in ("any", 0):
            body = [d(rng) for _ in range(n)]
            if body and first == 0:
                body[0] = 0
            elif body and body[0] == 0:
                body[0] = 0x41
            c = [["newparser", [1, rng.randrange(16), whole, 1]], ["feed", [0], [0xF0] + body + [0xF7]],
                 ["feed", [1], [0xF0] + body + [0xF7] + [0xF0] + body[::-1] + [0xF7]]]
            if n < 64:
                for cut in [0xF0, 0x80, 0xC1, 0xE2, 0xF1, 0xF2, 0xF3, 0xF4, 0xF5, 0xF6]:
                    c.append(["feed", [1], [0xF0] + body + [cut]])
                    c.append(["feed", [2], [d(rng), d(rng), d(rng)]])
                    c.append(["feed", [2], [0xF7]])
                    c.append(["feed", [0], [0xF0, 0x42, 1, 2, 0xF7]])
            cases.append(c)
    return cases


def long_sysex(rng, whole, lens):
    cases = []
    for n in lens:
        body = [rng.randrange(128) for _ in range(n)]
        ev = [["newparser", [0, 0, whole, 1]]]
        bs = [0xF0] + body + [0xF7, 0xF0, 0x43, 1, 0xF7]
        cut = rng.choice([[0xF0], [0xF6, 0xF0], [0x95, 1, 2, 0xF0], [0xF4, 0xF0]])
        bs += [0xF0] + body[::-1] + cut + [0x44, 2, 0xF7]     # one that is cut short, and the next
        step = rng.choice([256, 1000, 4096] if n < 60000 else [4096, 20000, 200000])
        for i in range(0, len(bs), step):
            ev.append(["feed", [rng.randrange(3)], bs[i:i + step]])
        cases.append(ev)
    return cases


def big_chunks(rng, whole, lens):
    """The same long stream in one call, in huge calls, and byte by byte"""
    cases = []
    for n in lens:
        bs = []
        while len(bs) < n:
            bs += stream(rng, ALLW, 20, .05)
        for step in (len(bs), 257, 256, 255, 65536, 65535):
            for how in (0, 1, 2):
                if step <= n or step == len(bs):
                    cases.append([["newparser", [1, 3, whole, 1]]] + [["feed", [how], bs[i:i + step]] for i in range(0, len(bs), step)])
    # a huge call that begins and ends in the middle of a message
    heads = [([0x93], [60, 100]), ([0x93, 60], [100]), ([0xC2], [7]), ([0xF2, 5], [6]), ([0xF0, 0x41, 1, 2], [3, 4, 0xF7]),
             ([0xF0, 0, 1], [2, 3, 4, 0xF7]), ([0xF0] + list(range(1, 12)), [0xF7]), ([0xE5, 1, 2], [3, 4])]
    for n in lens:
        for head, tail in heads:
            bs = [0xF0, 0x7D] + [rng.randrange(128) for _ in range(n)] + [0xF7, 0xF6]
            cases.append([["newparser", [1, 5, whole, 1]], ["feed", [rng.randrange(1, 3)], head], ["feed", [rng.randrange(1, 3)], tail + bs + head],
                          ["feed", [1], tail]])
    return cases


def control_cases(rng, n):
    cases = []
    for _ in range(n):
        whole = rng.randrange(2)
        c = [new(rng, whole, int(rng.randrange(4) > 0))]
        bs = stream(rng, ALLW, 6, .08)
        for b in bs:
            c.append(["feed", [rng.randrange(3)], [b]])
            if rng.random() < .2:
                c.append(rng.choice([["reset"], ["group", [rng.randrange(16)]], ["enable", [0]], ["enable", [1]],
                                     ["enable", [1]], ["query"], ["feed", [1], []], ["feed", [2], []]]))
        cases.append(c)
    return cases


def control_everywhere(rng):
    """One reset / group change / disable / enable at every position of a base stream."""
    bases = [[0x90, 60, 100, 61, 101], [0xF2, 1, 2, 3], [0xC1, 1, 2],
             [0xF0] + list(range(1, 9)) + [0xF7], [0xF0, 0, 1, 2, 3, 0xF7, 0xF8], [0xF0] + list(range(1, 16)) + [0xF7],
             [0xF0, 1, 2, 3, 4, 5, 6, 0xF7], [0xF1, 3], [0xFE, 0xF6]]
    cases = []
    for whole in (0, 1):
        for base in bases:
            n = len(base)
            for pos in range(n + 1):
                for ctl in ([["reset"]], [["group", [9]]], [["enable", [0]]], [["enable", [1]]]):
                    c = [["newparser", [1, 4, whole, 1]], ["feed", [1], base[:pos]], *ctl, ["feed", [1], base[pos:]],
                         ["enable", [1]], ["query"], ["feed", [1], base], ["feed", [0], [1, 2, 3]]]
                    cases.append(c)
            for p1 in range(n + 1):
                for p2 in range(p1, n + 1):
                    cases.append([["newparser", [1, 4, whole, 1]], ["feed", [1], base[:p1]], ["enable", [0]],
                                  ["feed", [2], base[p1:p2]], ["enable", [1]], ["feed", [0], base[p2:]], ["query"],
                                  ["feed", [1], base]])
                    cases.append([["newparser", [1, 4, whole, 0]], ["query"], ["feed", [1], base[:p1]], ["enable", [1]],
                                  ["feed", [2], base[p1:p2]], ["group", [3]], ["feed", [0], base[p2:]], ["query"],
                                  ["feed", [1], base]])
    return cases


def to_cases(rng, n):
    """Encoder: every type and status, with boundary data; random packets."""
    evs = []
    pats = [[0, 0], [0x7F, 0x7F], [0x01, 0x40], [0x40, 0x02]]
    for t in range(16):
        for s in range(256):
            for g, p in ((0, pats[s % 4]), (15, pats[(s + 1) % 4])):
                tail = [rng.randrange(128) for _ in range(12)]
                evs.append(["to", [t * 16 + g, s] + p + tail[:4 * ([1, 1, 1, 2, 2, 4, 1, 1, 2, 2, 2, 3, 3, 4, 4, 4][t] - 1)]])
    for _ in range(n // 4):       # data with the highest bit set
        s = rng.choice([rng.randrange(128, 240), 0xF1, 0xF2, 0xF3, 0xF6, 0xF8])
        evs.append(["to", [(16 if s >= 0xF0 else 32) + rng.randrange(16), s, rng.randrange(256), rng.randrange(256)]])
    for _ in range(n):
        t = rng.choice([1, 2, 3])
        evs.append(["to", [t * 16 + rng.randrange(16), rng.randrange(64) if t == 3 else rng.randrange(128, 256), d(rng), d(rng)]
                    + ([d(rng) for _ in range(4)] if t == 3 else [])])
    return evs


def from_cases(rng):
    return [["from", [s, a, b]] for s in range(256) for a, b in ((0, 0), (1, 127), (127, 1), (64, 0), (rng.randrange(128), rng.randrange(128)))]


def valid_packet(rng):
    k = rng.randrange(3)
    if k == 0:
        s = rng.choice([0xF1, 0xF2, 0xF3, 0xF6, 0xF8, 0xFA, 0xFB, 0xFC, 0xFE, 0xFF])
        return [[16, s] + [d(rng) for _ in range(need(s))] + [0] * (2 - need(s))]
    if k == 1:
        s = rng.randrange(0x80, 0xF0)
        return [[32, s] + [d(rng) for _ in range(need(s))] + [0] * (2 - need(s))]
    body = sysex_body(rng, rng.randrange(1, 30))
    ps = [body[i:i + 6] for i in range(0, len(body), 6)]
    out = []
    for i, p in enumerate(ps):
        f = 0 if len(ps) == 1 else 1 if i == 0 else 3 if i == len(ps) - 1 else 2
        out.append([48, f * 16 + len(p)] + p + [0] * (6 - len(p)))
    return out


def trip_cases(rng, n):
    evs = []
    for _ in range(n):
        ps = []
        for _ in range(rng.randrange(1, 6)):
            ps += valid_packet(rng)
        evs.append(["trip"] + ps)
    return evs


def group_events(evs, k):
    return [evs[i:i + k] for i in range(0, len(evs), k)]


def long_running(rng, counts):
    """One status byte, then very many messages of running status, with realtime bytes and chunk borders anywhere."""
    cases = []
    for n in counts:
        for s in (0x9A, 0xC3, 0xE0, 0xD7):
            bs = [s] + [d(rng) for _ in range(n * need(s))]
            for _ in range(5):
                bs.insert(rng.randrange(1, len(bs)), rng.choice(RT))
            step = rng.choice([250, 255, 256, 257, 1000, 70000])
            cases.append([new(rng)] + [["feed", [rng.randrange(3)], bs[i:i + step]] for i in range(0, len(bs), step)] + [["feed", [0], [0xF6, 1, 2, 3]]])
    return cases
