"""Cases for universal SysEx and MIDI-CI (C23-C27)."""
M28 = (1 << 28) - 1
V28 = [0, 1, 127, 128, 16383, 16384, 2097151, 2097152, M28, M28 - 1, 1 << 27, 0x7F << 7, 0x7F << 14, 0x7F << 21]
V14 = [0, 1, 127, 128, 129, 255, 256, 8191, 8192, 0x3F80, 16382, 16383]
V7 = [0, 1, 2, 0x3F, 0x40, 0x7E, 0x7F]
U7E, U7F = [126, 0, 0], [127, 0, 0]


def b7(r): return r.choice(V7) if r.random() < .4 else r.randrange(128)
def u14(r): return r.choice(V14) if r.random() < .5 else r.randrange(1 << 14)
def u28(r): return r.choice(V28) if r.random() < .5 else r.randrange(1 << 28)
def hd(r): return [u28(r), u28(r), b7(r)]
def by(r, n): return [b7(r) for _ in range(n)]


def mid(r):
    return [r.randrange(1, 128), 0, 0] if r.random() < .5 else [0, b7(r), b7(r)]


def eid(r):      # id in an 11 byte identity: any three 7 bit bytes
    return r.choice([mid(r), mid(r), by(r, 3)])


def fmr(r): return [u14(r), u14(r), u28(r)]


def length(r, big=0):
    if big and r.random() < .3:
        return r.choice([126, 127, 128, 129, 255, 256, 257, 300])
    return r.choice([0, 1, 2, 3, 5, 8, 13, r.randrange(40)])


PRINT = [c for c in range(32, 127) if c not in (34, 92)]


def text(r, n=None):
    n = r.choice([0, 1, 3, 8, 20]) if n is None else n
    return [r.choice(PRINT) for _ in range(n)]


def b(s): return [ord(c) for c in s]


NUMERALS = ["", "-", "0", "-0", "1", "-1", "9", "10", "01", "-01", "00", "007", "123", "-12345", "2147483648", "99999999999999999999",
            "1.5", ".5", "1e3", "1.", "+1", " 1", "1 ", "--1", "1-", "-1-", "0x10", "true", "false", "null", "abc", "1a", "a1", "-a", "/", ":", "0:", "/0", "9/", "full",
            "partial", "start", "Mcoded7", "application/json", "00000000000000000000", "-00", "0-"]


def optvalue(r):
    k = r.random()
    if k < .5:
        return b(r.choice(NUMERALS))
    if k < .8:
        return b(str(r.choice([0, 1, 9, 10, 200, 404, -1, -77, r.randrange(-10**6, 10**6)])))
    return text(r)


def options(r, n=None):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 6]) if n is None else n):
        out += [b(r.choice(["offset", "limit", "id", "encoding", "command", "subscribeId", "x", ""])) if r.random() < .8 else text(r), optvalue(r)]
    return out


def status(r): return r.choice([200, 404, 0, -1, 1, 9, 10, 99, 100, 2147483647, -2147483647, r.randrange(-10**9, 10**9)])


def chunks(r):
    n = r.choice([0, 1, 1, 2, 3, 127, 128, 129, 16383, u14(r)])
    t = r.choice([0, 1, 1, 2, n, max(0, n - 1)]) if n == 0 or r.random() < .5 else r.randrange(0, n + 1)
    if n and t > n:
        t = n
    return n, t


def management(r, k=1):
    ev = []
    for _ in range(60 * k):
        for o in ("d.inq", "d.inq0", "d.inq1", "d.rep", "d.rep0", "d.rep1"):
            ev.append([o, hd(r), eid(r), fmr(r), [b7(r), u28(r), b7(r), b7(r)]])
        ev.append(["e.inq", hd(r), [b7(r)]])
        ev.append(["e.rep", hd(r), [b7(r)], by(r, length(r, 1))])
        for o in ("n.ack", "n.nak"):
            ev.append([o, hd(r), by(r, 3), by(r, 5), text(r, length(r, 1))])
        ev.append(["n.nak1", hd(r)])
        m = received(r)
        ev.append(["n.nakv", U7E, m, by(r, 2), by(r, 5), text(r, length(r))])
        ev.append(["n.nakv1", U7E, m])
        ev.append(["n.inv", hd(r), [u28(r)]])
    # each multi byte field, one bit at a time
    for k_ in range(28):
        v = 1 << k_
        ev += [["n.inv", [v, 0, 0], [M28 - v]], ["n.inv", [0, 0, 0], [v]], ["e.inq", [v, M28 ^ v, 0], [5]],
               ["d.inq", [0, 0, 0], [0, 0, 0], [0, 0, v], [0, 0, 0, 0]], ["d.inq", [0, 0, 0], [0, 0, 0], [0, 0, 0], [0, v, 0, 0]],
               ["d.rep", [v, M28 ^ v, 0], [1, 2, 3], [0, 0, M28 ^ v], [1, M28 ^ v, 2, 3]],
               ["d.inq1", [v, 0, 0], [4, 5, 6], [0, 0, v], [3, v, 0, 0]], ["d.rep1", [v, v, 0], [4, 5, 6], [1 << (k_ % 14), 1 << (k_ // 2), v], [3, v, 0, 0]],
               ["n.ack", [v, M28 - v, 3], [1, 2, 3], [4, 5, 6, 7, 8], []]]
    for n in (0, 1, 2, 63, 127, 128, 129, 200, 255, 256, 257, 1000, 16000, 16383):
        ev += [["e.rep", hd(r), [3], by(r, n)], ["n.ack", hd(r), by(r, 3), by(r, 5), text(r, n)], ["n.nak", hd(r), by(r, 3), by(r, 5), text(r, n)]]
    cases = group(ev + heard(r, (112, 113, 114, 115, 125, 126, 127), k), 40)
    # the message class: any sequence of changes
    for _ in range(80 * k):
        c = []
        for _ in range(r.randrange(2, 15)):
            if not c or r.random() < .1:
                c.append(r.choice([["c.new", hd(r), [b7(r)]], ["c.new0", hd(r), [b7(r)]], ["c.newp", hd(r), [b7(r), r.randrange(64)]],
                                   ["c.newp0", hd(r), [b7(r), r.randrange(64)]]]))
            else:
                c.append(r.choice([["c.src", [u28(r)]], ["c.dst", [u28(r)]], ["c.dev", [b7(r)]], ["c.add", by(r, r.randrange(1, 6))]]))
        cases.append(c)
    return cases


def heard(r, subs, k):
    """Well formed messages of these kinds as other devices send them: any message version, fields added behind the known ones."""
    return [["view", U7E, received(r, s, v) + by(r, x)] for _ in range(2 * k) for s in subs for v in (1, 2, 3, r.randrange(4, 128)) for x in (0, r.choice([1, 2, 5, 9]))]


def group(ev, n):
    return [ev[i:i + n] for i in range(0, len(ev), n)]


def profiles(r, k=1):
    ev = []

    def plist(n): return by(r, 5 * n)
    for _ in range(60 * k):
        ev += [["p.inq", hd(r)], ["p.inq0", hd(r)]]
        for o in ("p.rep", "p.rep0"):
            ev.append([o, hd(r), plist(r.choice([0, 0, 1, 2, 3, 7])), plist(r.choice([0, 0, 1, 2, 3, 7])), [r.randrange(2)]])
        for o in ("p.on", "p.off", "p.ena", "p.dis"):
            ev.append([o, hd(r), by(r, 5), [u14(r)]])
        for o in ("p.add", "p.add0", "p.rem", "p.rem0"):
            ev.append([o, hd(r), by(r, 5)])
        ev.append(["p.dest", [b7(r), r.choice([0, 1, u14(r)])]])
        p = by(r, 5)
        q = list(p)
        q[r.randrange(5)] ^= r.choice([0, 1, 64])
        ev += [["p.eq", p, q], ["p.eq", p, p], ["p.eq", p, by(r, 5)]]
        for o in ("p.dinq", "p.dinq0"):
            ev.append([o, hd(r), by(r, 5), [b7(r)]])
        for o in ("p.drep", "p.drep0"):
            ev.append([o, hd(r), by(r, 5), [b7(r)], by(r, length(r, 1))])
        for o in ("p.psd", "p.psd0"):
            ev.append([o, hd(r), by(r, 5), by(r, length(r, 1)), [r.randrange(2)]])
        ev += [["q.caps", hd(r)], ["q.caps0", hd(r)], ["q.capr", hd(r), [b7(r)]], ["q.capr0", hd(r), [b7(r)]]]
        ev += [["q.inq", hd(r), by(r, 4)], ["q.inq0", hd(r), by(r, 4)], ["q.rep", hd(r), by(r, 3)], ["q.rep0", hd(r), by(r, 3)],
               ["q.end", hd(r)], ["q.end0", hd(r)]]
    for z in range(28):
        v = 1 << z
        ev += [["p.inq", [v, M28 ^ v, 7]], ["q.end", [v, 0, 3]], ["q.caps", [M28 ^ v, v, 9]]]
    for z in range(14):
        for o in ("p.on", "p.off", "p.ena", "p.dis"):
            ev.append([o, hd(r), by(r, 5), [1 << z]])
    for n in (126, 127, 128, 129, 130, 255, 256, 257, 400, 1000):
        ev += [["p.rep", hd(r), plist(n), plist(2), [r.randrange(2)]], ["p.rep", hd(r), plist(1), plist(n), [r.randrange(2)]]]
    ev += [["p.rep", hd(r), plist(3276), plist(0), [0]], ["p.rep", hd(r), plist(2), plist(3277), [1]], ["p.rep", hd(r), plist(13108), plist(1), [0]],
           ["p.rep", hd(r), plist(1), plist(13108), [1]]]
    for n in (100, 127, 128, 129, 1000, 16000, 16383):
        ev += [["p.drep", hd(r), by(r, 5), [1], by(r, n)]]
    for how in (0, 1):
        for n in (127, 128, 129, 255, 256, 16383, 16384, 16385, 32768, 65535, 65536, 65537, 70000):
            ev += [["p.psd", hd(r), by(r, 5), by(r, n), [how]]]
        ev += [["p.psd0", hd(r), by(r, 5), by(r, 66000), [how]]]
    return group(ev + heard(r, (32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 47, 64, 65, 66, 67, 68), k), 30)


def rq(r):
    """request id, and what is left to defaults"""
    return [b7(r)] + r.choice([[], [], [1], [2]])


def properties(r, k=1):
    ev = []
    for _ in range(60 * k):
        for o in ("x.caps", "x.caps0", "x.capr", "x.capr0"):
            ev.append([o, hd(r), [b7(r)]])
        ev += [["x.get", hd(r), rq(r), text(r)], ["x.geto", hd(r), rq(r), text(r)] + options(r)]
        n, t = chunks(r)
        ck = lambda: [] if t == 0 else by(r, length(r, 1))
        for sub in (52, 53, 54, 55, 56, 57, 63):
            n, t = chunks(r)
            ev.append(["x.data", hd(r), rq(r), [sub, r.randrange(6), n, t], by(r, length(r, 1)) if t < 2 or r.random() < .1 else [], ck()])
        for o in ("x.getr", "x.getrs", "x.getrm", "x.getrc", "x.set", "x.seto", "x.setc", "x.subc"):
            n, t = chunks(r)
            e = [o, hd(r), rq(r), [n, t, r.randrange(6), status(r)], text(r), ck()]
            if o == "x.seto":
                e += options(r)
            ev.append(e)
        for o in ("x.setr", "x.subr", "x.not"):
            ev.append([o, hd(r), rq(r), [status(r)]])
            ev.append([o + "m", hd(r), rq(r), [status(r)], r.choice([text(r), optvalue(r)])])
        for o in ("x.sub", "x.subn"):
            n, t = chunks(r)
            ev.append([o, hd(r), rq(r), [n, t, r.randrange(6)], text(r), ck(), r.choice([b("start"), b("end"), text(r), optvalue(r)]), r.choice([text(r), optvalue(r)])])
        ev += [["j.s", text(r), text(r)], ["j.i", text(r), [status(r)]], ["j.so", text(r), text(r)] + options(r), ["j.io", text(r), [status(r)]] + options(r)]
    for n in (60, 127, 128, 129, 255, 256, 257, 300, 1000, 5000):      # long texts, many options
        ev += [["x.get", hd(r), rq(r), text(r, n)], ["x.geto", hd(r), rq(r), text(r), text(r, 3), text(r, n), text(r, n), b("12")],
               ["j.so", text(r, n), text(r, n), text(r, n), text(r, n)], ["j.i", text(r, n), [status(r)]], ["x.setrm", hd(r), rq(r), [200], text(r, n)],
               ["j.so", b("resource"), b("X"), b("k"), [48 + r.randrange(1, 10) for _ in range(n)], b("z"), b("1")],
               ["x.seto", hd(r), rq(r), [1, 1, r.randrange(6), 0], text(r, n), by(r, 3), b("a"), text(r, n)]]
    for n in (20, 127, 128, 256, 300):
        ev += [["j.so", b("r"), b("x")] + options(r, n), ["j.io", b("r"), [1]] + options(r, n), ["x.geto", hd(r), rq(r), b("R")] + options(r, n)]
    for x in NUMERALS:
        ev += [["j.so", b("resource"), b("X"), b("k"), b(x)], ["j.io", b("status"), [200], b("k"), b(x), b("z"), b(x)],
               ["x.notm", hd(r), [1], [200], b(x)], ["x.geto", hd(r), [1], b("R"), b("a"), b(x), b("bb"), b("1")]]
    for h in (0, 1, 126, 127, 128, 129, 255, 256, 1000, 8192, 16383):
        for c in (0, 1, 127, 128, 256, 16383):
            if h + c > 20000 and r.random() < .5:
                continue
            ev.append(["x.data", hd(r), rq(r), [r.choice([53, 54, 56]), r.randrange(6), r.choice([0, 1, 5]), 1], by(r, h), by(r, c)])
    for z in range(14):
        v = 1 << z
        ev += [["x.data", hd(r), [3], [53, 0, 16383, v], [], by(r, 3)], ["x.data", hd(r), [3], [53, 0, v, 1], by(r, 4), by(r, 3)],
               ["x.data", hd(r), [3], [54, 0, 0, v], [], by(r, 3)]]
    return group(ev + heard(r, (48, 49, 52, 53, 54, 55, 56, 57, 63), k), 30)


# ------------------------------------------------------------ received data
def p14(v): return [v & 127, v >> 7 & 127]
def p28(v): return [v & 127, v >> 7 & 127, v >> 14 & 127, v >> 21 & 127]


def received(r, sub=None, ver=None):
    """A plausible MIDI-CI message body of any subtype."""
    sub = r.choice(SUBS) if sub is None else sub
    ver = r.choice([1, 2, 2, 2, 3]) if ver is None else ver
    h = [b7(r), 13, sub, ver] + p28(u28(r)) + p28(u28(r))
    n = r.choice([0, 0, 1, 2, 3, 9])
    d = by(r, n)
    if sub in (112, 113):
        p = by(r, 16) + (by(r, sub - 111) if ver > 1 else [])
    elif sub == 115:
        p = by(r, 1) + p14(n) + d
    elif sub in (125, 127):
        p = by(r, 8) + p14(n) + d
    elif sub == 126:
        p = by(r, 4)
    elif sub == 33:
        e, z = r.choice([0, 1, 2, 3]), r.choice([0, 1, 2, 3])
        p = p14(e) + by(r, 5 * e) + p14(z) + by(r, 5 * z)
    elif sub in (34, 35, 36, 37):
        p = by(r, 7)
    elif sub in (38, 39):
        p = by(r, 5)
    elif sub == 40:
        p = by(r, 6)
    elif sub == 41:
        p = by(r, 6) + p14(n) + d
    elif sub == 47:
        p = by(r, 5) + p28(n) + d
    elif sub in (48, 49):
        p = by(r, 1 if ver < 2 else 3)
    elif sub in (52, 53, 54, 55, 56, 57, 63, 50, 51, 58, 62):
        hl = r.choice([0, 0, 1, 4, 11])
        c, t = r.choice([(1, 1), (0, 0), (0, 1), (0, 5), (1, 0), (3, 1), (3, 2), (3, 3), (3, 4), (128, 127), (128, 129), (127, 128), (16383, 16383)])
        p = by(r, 1) + p14(hl) + by(r, hl) + p14(c) + p14(t) + p14(n) + d
    else:
        p = by(r, {114: 1, 65: 1, 66: 5, 67: 4}.get(sub, r.choice([0, 0, 3])))
    return h + p


SUBS = [112, 113, 114, 115, 125, 126, 127, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 62, 63, 64, 65, 66, 67, 68, 0, 31, 42, 46]
IDS = [[126, 0, 0], [127, 0, 0], [0, 0, 0], [125, 0, 0], [126, 0, 1], [126, 1, 0], [0, 126, 0], [0, 0, 126], [0, 0x20, 0x29]]


def untrusted(r, k=1):
    ev = []

    def v(d, i=U7E): ev.append(["view", i, d])
    for sub in SUBS:
        for ver in (0, 1, 2, 3, 127):
            m = received(r, sub, ver)
            for n in range(len(m) + 1):           # every truncation
                v(m[:n])
            for n in (1, 2, 3, 4, 5, 6, 9, 10):   # every kind of surplus
                v(m + by(r, n))
    for _ in range(25 * k):
        for sub in SUBS:
            m = received(r, sub)
            v(m)
            for _ in range(6):                    # one corrupted byte, also combined with a truncation
                q = list(m)
                j = r.choice([1, 2, 3] + list(range(12, len(q))) * 2) if len(q) > 12 else r.randrange(len(q))
                q[j] = r.choice([0, 1, 2, q[j] ^ 1, q[j] ^ 64, (q[j] + 1) & 127, (q[j] - 1) & 127, 127])
                v(q)
                v(q[:r.randrange(len(q) + 1)])
            v(m, r.choice(IDS))
    for _ in range(60 * k):                       # lists that end before or after what they announce
        e, z = r.choice([0, 1, 2, 126, 127, 128, 129]), r.choice([0, 1, 2, 127, 128])
        m = [1, 13, 33, 2] + p28(5) + p28(6) + p14(e) + by(r, 5 * e) + p14(z) + by(r, 5 * z)
        for c in (0, 1, 2, 4, 5, 6, 5 * z, 5 * z + 1, 5 * z + 2, 5 * z + 3):
            v(m[:max(0, len(m) - c)])
        n = r.choice([0, 1, 126, 127, 128, 129, 255, 256])
        for sub, pre, f in ((115, 1, p14), (125, 8, p14), (127, 8, p14), (41, 6, p14), (47, 5, p28)):
            m = [1, 13, sub, 2] + p28(5) + p28(6) + by(r, pre) + f(n)
            for d in (-1, 0, 1, -n, 5, -128, -127):
                if n + d >= 0:
                    v(m + by(r, n + d))
        m = [1, 13, 47, 2] + p28(5) + p28(6) + by(r, 5) + p28(r.choice([M28, 1 << 27, 1 << 21, 1 << 14, 128, 127])) + by(r, r.choice([0, 1, 128]))
        v(m)
        h, c = r.choice([0, 1, 126, 127, 128, 129, 300]), r.choice([0, 1, 127, 128, 129])
        m = [1, 13, r.choice([52, 53, 54, 56, 57, 63]), 2] + p28(5) + p28(6) + [3] + p14(h) + by(r, h) + p14(1) + p14(1) + p14(c) + by(r, c)
        for d in (0, 1, 2, c, c + 1, c + 2, c + 3, c + 5, c + 6, c + 7, c + h, h):
            v(m[:max(0, len(m) - d)])
        m = [1, 13, r.choice([52, 55, 63]), 2] + p28(5) + p28(6) + [3] + p14(r.choice([16383, 8192, 127, 40])) + by(r, r.choice([0, 6, 7, 12, 39, 45, 46, 60]))
        v(m)
    big = by(r, 700)
    for e in (13104, 13107, 13108, 13109, 13120, 13200, 16383, 8192, 3277, 6554, 1639, 52, 51):   # announced lengths beyond any narrow counter
        h = [1, 13, 33, 2] + p28(5) + p28(6)
        w = 5 * e % 65536
        for n in (0, 1, 2, 4, 5, 10, w % 256, w % 256 + 2, 260, 700):
            n = min(n, 700)
            v(h + p14(e) + big[:n] + p14(0))
            v(h + p14(e) + p14(0) + big[:n])
            v(h + p14(0) + p14(e) + big[:n])
            v(h + p14(1) + big[:5] + p14(e) + big[:n])
    for n in (256, 257, 300, 512, 16383, 16128, 8192):
        for sub, pre in ((115, 1), (125, 8), (127, 8), (41, 6), (47, 5)):
            m = [1, 13, sub, 2] + p28(5) + p28(6) + by(r, pre) + (p28(r.choice([n, n + 65536, n + (1 << 24), n << 8])) if sub == 47 else p14(n))
            for d in (0, 1, n % 256, n % 256 + 1, 44, 255, 256, 300):
                v(m + big[:d])
        for c in (0, 1, n):
            m = [1, 13, r.choice([52, 53, 54, 56, 57, 63]), 2] + p28(5) + p28(6) + [3] + p14(n) + big[:300] + p14(1) + p14(1) + p14(c) + big[:r.choice([0, 1, 44, 300])]
            v(m)
            v(m[:12 + 3 + n % 256 + 6 + c % 256])
    body = by(r, 1400)
    for n in range(0, 290 if k == 1 else 700):    # every announced length: one byte too few, and all of them
        for sub, pre in ((115, 1), (125, 8), (127, 8), (41, 6), (47, 5)):
            if (n + sub) % 2 and k == 1:
                continue
            m = [1, 13, sub, 2] + p28(5) + p28(6) + body[n:n + pre] + (p28(n) if sub == 47 else p14(n))
            if n:
                v(m + body[:n - 1])
            v(m + body[:n])
        h = n if n % 2 else r.randrange(n + 1)
        m = [1, 13, [52, 53, 54, 55, 56, 57, 63][n % 7], 2] + p28(5) + p28(6) + [3] + p14(h) + body[:h] + p14(1) + p14(1) + p14(n - h) + body[:n - h]
        v(m)
        v(m[:-1])
        e = r.randrange(n // 5 + 1)
        m = [1, 13, 33, 2] + p28(5) + p28(6) + p14(e) + body[:5 * e] + p14(n // 5 - e) + body[:5 * (n // 5 - e)]
        v(m[:len(m) - n % 5])
    for i in IDS[:3]:                             # identity messages
        for sub in (0, 1, 2, 3):
            for n in range(0, 19):
                for z in (0, 1, 0x41):
                    m = ([b7(r), 6, sub, z] + by(r, 20))[:n]
                    v(m, i)
    for _ in range(300 * k):
        v(by(r, r.randrange(40)), r.choice(IDS))
        m = [b7(r), 13, r.choice(SUBS), r.choice([1, 2])] + by(r, r.randrange(40))
        v(m)
    cases = group(ev, 40)
    # bytes no SysEx can contain: nothing is said about what is read, but never beyond the message
    ev = []
    for _ in range(40 * k):
        for sub in SUBS:
            m = received(r, sub)
            for _ in range(2):
                q = list(m)
                for _ in range(r.randrange(1, 4)):
                    q[r.randrange(len(q))] = r.choice([128, 255, 129, 254, r.randrange(256)])
                q[1] = 13 if r.random() < .9 else q[1]
                ev.append(["view8", U7E, q])
                ev.append(["view8", U7E, q[:r.randrange(len(q) + 1)]])
    return cases + group(ev, 60)


def universal(r, k=1):
    ev = []
    for d in range(128):
        ev += [["u.req", [d], [d % 2]], ["u.rep", mid(r), fmr(r), [d], [d % 2]]]
    ev += [["u.req0", [0]], ["u.req0", [1]]]
    for x in range(1, 128):
        ev.append(["u.rep0", [x, 0, 0], fmr(r), [x % 4]])
        ev.append(["u.rep0", [0, x, b7(r)], fmr(r), [x % 4]])
        ev.append(["u.rep0", [0, b7(r), x], fmr(r), [x % 4]])
    for z in range(28):
        ev += [["u.rep", mid(r), [1 << (z % 14), 1 << ((z + 5) % 14), 1 << z], [z], [z % 2]], ["u.rep0", mid(r), [16383 ^ 1 << (z % 14), 0, M28 ^ 1 << z], [z % 4]]]
    for _ in range(150 * k):
        i = r.choice([U7E, U7F])
        m = by(r, r.choice([0, 1, 2, 3, 4, 9]))
        ev.append(["u.new", i, m])
        if m:
            ev.append(["u.dev", i, m, [b7(r)]])
        ev.append(["u.rep", mid(r), fmr(r), [b7(r)], [r.randrange(2)]])
    return group(ev, 30)
