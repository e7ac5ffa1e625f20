"""Universal packets of every kind."""
EDGE = [0, 1, 2, 3, 7, 0x3F, 0x40, 0x41, 0x7E, 0x7F, 0x80, 0x81, 0xFE, 0xFF]
CAP = [4, 4, 4, 8, 8, 16, 4, 4, 8, 8, 8, 12, 12, 16, 16, 16]


def group(evs, k=40):
    return [evs[i:i + k] for i in range(0, len(evs), k)]


def rb(rng):
    return rng.choice(EDGE) if rng.random() < .4 else rng.randrange(256)


def r7(rng):
    return rng.choice([0, 1, 63, 64, 65, 126, 127]) if rng.random() < .4 else rng.randrange(128)


def r4(rng):
    return rng.choice([0, 15]) if rng.random() < .3 else rng.randrange(16)


def rbytes(rng, n):
    m = rng.random()
    if m < .15:
        return [0] * n
    if m < .3:
        return [255] * n
    return [rb(rng) for _ in range(n)]


def w32(rng):
    m = rng.random()
    if m < .35:
        v = (rng.choice([0, 0x80000000, 0x7FFFFFFF, 0xFFFFFFFF]) + rng.randrange(-2, 3)) % (1 << 32)
    elif m < .6:
        v = 1 << rng.randrange(32)
        v = (v + rng.randrange(-1, 2)) % (1 << 32)
    else:
        v = rng.randrange(1 << 32)
    return [v >> 24, (v >> 16) & 255, (v >> 8) & 255, v & 255]


def w16(rng):
    v = rng.choice([0, 1, 0x1FF, 0x200, 0x3FF, 0x400, 0x7FFF, 0x8000, 0x8001, 0xFDFF, 0xFE00, 0xFFFF]) if rng.random() < .4 else rng.randrange(65536)
    return [v >> 8, v & 255]


def packet(rng, t=None, b2=None):
    t = rng.randrange(16) if t is None else t
    return [t * 16 + r4(rng), rb(rng) if b2 is None else b2] + rbytes(rng, 14)


# --------------------------------------------------------------- container
def container(rng, many):
    cs = []
    for t in range(16):
        evs = [["p.new", packet(rng, t, b2)] for b2 in range(256)]
        cs += group(evs)
    cs.append([["p.new", [rb(rng) for _ in range(4 * n)]] for n in (0, 1, 2, 3, 4) for _ in range(6)])
    for base in ([0] * 16, [255] * 16, packet(rng), packet(rng)):   # every byte, every setter
        c = [["p.new", base]]
        for i in range(16):
            for v in (0, 1, 0x7F, 0x80, 0xAA, 0xFF):
                c += [["p.byte", [i, v]], ["p.byte7", [i, v]]]
        for g in range(16):
            c += [["p.group", [g]], ["p.type", [(g * 7) % 16]]]
        c += [["p.reset"]]
        cs.append(c)
    for _ in range(120 * many):
        c = [["p.new", packet(rng)]]
        for _ in range(rng.randrange(4, 30)):
            m = rng.random()
            if m < .35:
                c.append(["p.byte", [rng.randrange(16), rb(rng)]])
            elif m < .6:
                c.append(["p.byte7", [rng.randrange(16), rb(rng)]])
            elif m < .72:
                c.append(["p.group", [rng.randrange(16)]])
            elif m < .84:
                c.append(["p.type", [rng.randrange(16)]])
            elif m < .94:
                c.append(["p.copy", [rng.randrange(16), rb(rng)]])
            else:
                c.append(["p.reset"])
        cs.append(c)
    evs = []
    for t in range(16):
        for _ in range(1 + many // 3):
            p = packet(rng, t)
            evs.append(["p.eq", p, p])
            for bit in range(128):
                q = list(p)
                q[bit // 8] ^= 1 << (7 - bit % 8)
                evs.append(["p.eq", p, q])
        for zero in (0, 255):                 # sparse packets, one bit changed
            p = [t * 16] + [zero] * 15
            for bit in range(128):
                q = list(p)
                q[bit // 8] ^= 1 << (7 - bit % 8)
                evs.append(["p.eq", p, q])
        for b2 in range(256):                 # every status: one bit changed in each word
            p = packet(rng, t, b2)
            p[0] = t * 16 + rng.choice([0, 0, 4, 15, rng.randrange(16)])
            for w in range(4):
                q = list(p)
                q[4 * w + rng.randrange(4)] ^= 1 << rng.randrange(8)
                evs.append(["p.eq", p, q])
        for _ in range(10 * many):
            evs.append(["p.eq", packet(rng, t), packet(rng, t)])
            p, q = packet(rng, t), packet(rng, t)
            evs.append(["p.eq", p, p[:CAP[t]] + q[CAP[t]:]])
    for t in range(16):
        for _ in range(12 * many):
            evs.append(["p.print", packet(rng, t)])
            evs.append(["p.print2", packet(rng, t), packet(rng)])
            evs.append(["p.trip", packet(rng, t), [rng.randrange(64)]])
    cs += group(evs)
    evs = []
    hexs = lambda w, rng: (lambda s: rng.choice([s, s, s, s.upper(), s.lstrip("0") or "0", "00" + s]))("%08x" % int.from_bytes(bytes(w), "big"))
    for _ in range(500 * many):
        fields = []
        for _ in range(rng.randrange(1, 5)):
            p = packet(rng)
            fields += [hexs(p[4 * k:4 * k + 4], rng) for k in range(CAP[p[0] >> 4] // 4)]
        m = rng.random()
        if m < .35:
            fields = fields[:rng.randrange(0, len(fields) + 1)]
        elif m < .6:
            i = rng.randrange(len(fields))
            fields[i] = rng.choice(["g", "zz", "xyz", "G1234567", ".", "/", ":", "hello", "#20903c40", "123456789", "fffffffff", "100000000", "%", "@1", "`", "@"])
        t = rng.choice(["", " ", "\n", "  \t"])
        for k, f in enumerate(fields):
            t += (rng.choice([" ", " ", " ", "\n", "\t", "  ", "\r\n"]) if k else "") + f
        t += rng.choice(["", "", "", " ", "\n", " \n "])
        evs.append(["p.parse", list(t.encode())])
    for t in range(16):                       # each packet cut after each word, with and without trailing blank
        p = packet(rng, t)
        fs = ["%08x" % int.from_bytes(bytes(p[4 * k:4 * k + 4]), "big") for k in range(4)]
        for k in range(5):
            for e in ("", " "):
                evs.append(["p.parse", list((" ".join(fs[:k]) + e).encode())])
    return cs + group(evs)


# ------------------------------------------------------------ channel voice
def voice(rng, many):
    evs = []
    for _ in range(40 * many):
        for st in range(0x80, 0xF0, 16):
            evs.append([rng.choice(["m1", "m1c"]), [r4(rng), st, r4(rng), r7(rng), r7(rng)]])
        for st in range(0, 256, 16):
            evs.append([rng.choice(["m2", "m2c"]), [r4(rng), st, r4(rng), r7(rng), rb(rng)], w32(rng)])
    for _ in range(60 * many):
        h = lambda *x: [r4(rng), r4(rng), *x]
        evs += [["m1.off", h(r7(rng)), w16(rng)], ["m1.off0", h(r7(rng))], ["m1.on", h(r7(rng)), w16(rng)], ["m1.poly", h(r7(rng)), w32(rng)],
                ["m1.cc", h(r7(rng)), w32(rng)], ["m1.pc", h(r7(rng))], ["m1.press", h(), w32(rng)], ["m1.bend", h(), w32(rng)],
                ["m2.off", h(r7(rng), rb(rng)), w16(rng), w16(rng)], ["m2.off0", h(r7(rng)), w16(rng)],
                ["m2.on", h(r7(rng), rb(rng)), w16(rng), w16(rng)], ["m2.on0", h(r7(rng)), w16(rng)], ["m2.onp", h(r7(rng)), w16(rng), w16(rng)],
                ["m2.poly", h(r7(rng)), w32(rng)], ["m2.rpnc", h(r7(rng), rb(rng)), w32(rng)], ["m2.apnc", h(r7(rng), rb(rng)), w32(rng)],
                ["m2.pnm", h(r7(rng), rng.randrange(4))], ["m2.cc", h(r7(rng)), w32(rng)], ["m2.rc", h(r7(rng), r7(rng)), w32(rng)],
                ["m2.ac", h(r7(rng), r7(rng)), w32(rng)], ["m2.rrc", h(r7(rng), r7(rng)), w32(rng)], ["m2.rac", h(r7(rng), r7(rng)), w32(rng)],
                ["m2.pc", h(r7(rng))], ["m2.pcb", h(r7(rng), rng.choice([0, 1, 127, 128, 129, 8191, 8192, 16383, rng.randrange(16384)]))],
                ["m2.press", h(), w32(rng)], ["m2.bend", h(), w32(rng)], ["m2.pnb", h(r7(rng)), w32(rng)]]
    # every argument value once per factory
    for k in range(128):
        n = [r4(rng), r4(rng), k]
        evs += [["m1.off", n, w16(rng)], ["m1.on", n, w16(rng)], ["m1.on", n[:2] + [r7(rng)], [2 * k, rb(rng)]], ["m1.poly", n, w32(rng)],
                ["m1.cc", n, w32(rng)], ["m1.pc", n], ["m1.press", n[:2], [2 * k + 1, 255, 255, 255]], ["m1.bend", n[:2], [2 * k + rng.randrange(2), rb(rng), 0, 0]],
                ["m2.on0", n, w16(rng)], ["m2.onp", n, w16(rng), w16(rng)], ["m2.poly", n, w32(rng)], ["m2.cc", n, w32(rng)], ["m2.pc", n],
                ["m2.pcb", n + [rng.randrange(16384)]], ["m2.pcb", n[:2] + [r7(rng), 128 * k + rng.randrange(128)]], ["m2.pnb", n, w32(rng)],
                ["m2.rc", n + [k], w32(rng)], ["m2.ac", n + [k], w32(rng)], ["m2.rrc", n + [k], w32(rng)], ["m2.rac", n + [k], w32(rng)]]
        evs += [["m2.on", n + [2 * k + rng.randrange(2)], w16(rng), w16(rng)], ["m2.off", n + [2 * k + rng.randrange(2)], w16(rng), w16(rng)],
                ["m2.rpnc", n + [2 * k + rng.randrange(2)], w32(rng)], ["m2.apnc", n + [2 * k + rng.randrange(2)], w32(rng)]]
    for t in range(16):
        for b2 in range(256):
            evs.append(["cv.views", packet(rng, t, b2)])
            if t in (2, 4):
                evs.append(["m%dp" % (t // 2), packet(rng, t, b2)])
    return group(evs)


def generic(rng, many):
    evs = []
    for t in range(16):
        for b2 in range(256):
            for _ in range((many if t not in (2, 4) else 6 * many)):
                p = packet(rng, t, b2)
                evs += [["cv.filters", p]]
                if t in (2, 4):
                    evs += [["cv.get", p]]
    for st in range(0, 256, 16):              # byte 3 and 4 exhaustively
        for k in range(256):
            for t in (2, 4):
                for b3, b4 in ((k, rng.choice([0, 0, 3, 7, rb(rng)])), (rng.choice([0, 0, rb(rng)]), k)):
                    p = [t * 16 + r4(rng), st + r4(rng), b3, b4] + rbytes(rng, 12)
                    evs += [["cv.filters", p], ["cv.get", p]]
    for st in range(0, 256, 16):              # every bit of the value alone, and alone missing
        for b in range(32):
            for w in (1 << b, (1 << 32) - 1 - (1 << b)):
                p = [0x40 + r4(rng), st + r4(rng), rng.choice([0, r7(rng)]), rng.choice([0, 3, rb(rng)])] + [w >> s & 255 for s in (24, 16, 8, 0)] + [0] * 8
                evs.append(["cv.get", p])
                if st == 32:                  # the two bend sensitivities
                    evs += [["cv.get", p[:2] + [0, 0] + p[4:]], ["cv.get", p[:2] + [0, 7] + p[4:]]]
    for b3 in (0, 1, 2, 127, 128, 129, 255):  # registered controllers that are (almost) one of them
        for b4 in (0, 1, 6, 7, 8, 127, 128, 129, 134, 135, 255):
            for st in (0x10, 0x20, 0x30, 0x40, 0x60, 0xA0):
                evs.append(["cv.filters", [0x40 + r4(rng), st + r4(rng), b3, b4] + rbytes(rng, 12)])
    for v in range(0, 16384, max(1, 37 // many)):
        evs.append(["cv.get", [0x20 + r4(rng), 0xE0 + r4(rng), v & 127, v >> 7] + [0] * 12])
    return group(evs)


def translate(rng, many):
    evs = []
    for st in range(0, 256, 16):
        for d1 in range(128):
            ds = set(range(128)) if many > 4 and st >= 0x80 else {0, 1, 63, 64, 65, 127, rng.randrange(128), rng.randrange(128)}
            for d2 in ds:
                p = [0x20 + r4(rng), st + r4(rng), d1, d2] + [0] * 12
                evs.append(["t12", p])
                evs.append(["t121", p])
            for d2 in range(128):
                if st >= 0x80 and rng.random() < .02 * many:
                    p = [0x20 + r4(rng), st + r4(rng), d2, d1] + [0] * 12
                    evs.append(["t12", p])
                    evs.append(["t121", p])
    for st in range(0, 256, 16):
        for k in range(128):
            for b4 in (0, 0, 0, 1, 3, 2, 128, rb(rng)):
                evs.append(["t21", [0x40 + r4(rng), st + r4(rng), k, b4] + w32(rng) + [0] * 8])
            evs.append(["t21", [0x40 + r4(rng), st + r4(rng), r7(rng), rng.choice([0, rb(rng)]), 2 * k, rb(rng)] + rbytes(rng, 2) + [0] * 8])
            evs.append(["t21", [0x40 + r4(rng), st + r4(rng), r7(rng), 2 * k] + w32(rng) + [0] * 8])
        for _ in range(60 * many):
            evs.append(["t21", [0x40 + r4(rng), st + r4(rng), r7(rng), rng.choice([0, 0, 0, 1, 3, rb(rng)])] + w32(rng) + [0] * 8])
    for t in range(16):
        for b2 in range(0, 256, 1 if many > 2 else 7):
            p = packet(rng, t, b2)
            if t != 2:
                evs.append(["t12", p])
            if t != 4:
                evs.append(["t21", p])
    return group(evs)


# ----------------------------------------------------- system, utility, SysEx
def others(rng, many):
    evs = [["plain"]]
    for _ in range(40 * many):
        addr = rng.randrange(2)               # a group's flex data has no channel
        evs.append(["ctors", [r4(rng), rng.choice([0xF1, 0xF2, 0xF3, 0xF6, 0xF8, 0xFA, 0xFF]), rng.choice([0, 16, 32, 48, 255]), rng.randrange(8, 15) * 16,
                              0 if addr else r4(rng), r7(rng), r7(rng), rng.randrange(4), addr, rb(rng), rb(rng), rb(rng)], w16(rng), rbytes(rng, 12)])
    for st in range(0xF1, 0x100):
        for g in range(16):
            evs += [["sys", [g, st, r7(rng), r7(rng)]], ["sys1", [g, st, r7(rng)]], ["sys0", [g, st]]]
    for p in sorted({0, 1, 127, 128, 129, 8191, 8192, 16256, 16383, *range(0, 16384, max(1, 101 // many))}):
        evs.append(["songpos", [r4(rng), p]])
    for t in range(16):
        for b2 in range(256):
            p = packet(rng, t, b2)
            evs += [["sysview", p], ["sx.views", p]]
            if t == 0:
                evs.append(["utilview", [rng.randrange(16)] + p[1:]])
    for t in (3, 5):
        for b2 in range(256):
            for _ in range(2 * many):
                evs.append(["sx.views", packet(rng, t, b2)])
    for st in range(256):
        evs.append(["util", [st], w16(rng)])
        evs.append(["dat.new", [st]])
    for k in range(256):
        evs += [["jr", [rng.randrange(2), rng.randrange(2)], [k, rb(rng)]], ["jr", [rng.randrange(2), rng.randrange(2)], [rb(rng), k]]]
    for st in (0, 0x10, 0x20):
        for _ in range(60 * many):
            evs.append(["util", [st], w16(rng)])
    cs = group(evs)
    # building SysEx packets
    for k, cap in ((7, 6), (8, 13)):
        for f in range(4):
            for g in range(16):
                c = [["s%d.new" % k, [f, g] + ([rng.randrange(256)] if k == 8 else [])]]
                c += [["s%d.add" % k, [rb(rng)]] for _ in range(cap)]
                cs.append(c)
        for _ in range(150 * many):
            c = [["s%d.new" % k, [rng.randrange(4), rng.randrange(16)] + ([rb(rng)] if k == 8 else [])]]
            n = 0
            for _ in range(rng.randrange(3, 28)):
                m = rng.random()
                if m < .5 and n < cap:
                    c.append(["s%d.add" % k, [rb(rng)]])
                    n += 1
                elif m < .75:
                    c.append(["s%d.set" % k, [rng.randrange(cap), rb(rng)]])
                elif m < .85 and k == 8:
                    c.append(["s8.id", [rb(rng)]])
                else:
                    n = rng.randrange(cap + 1)
                    c.append(["s%d.size" % k, [n]])
            cs.append(c)
    return cs


# ---------------------------------------------------------------- flex data
def text(rng, n, utf=True):
    return [rng.randrange(1, 256) if utf and rng.random() < .4 else rng.randrange(32, 127) for _ in range(n)]


def flex(rng, many):
    evs = []
    addr = lambda: rng.choice([[1, 0], [0, rng.randrange(16)]])
    for _ in range(400 * many):
        a, ch = addr()
        h = [r4(rng), rng.randrange(4), a, ch, rb(rng), rb(rng)]
        d = rng.choice([rbytes(rng, 12), w32(rng) + w32(rng) + w32(rng)])
        evs += [["flex", h, d], ["flex0", h]]
    for n in range(13):
        for f in range(4):
            if f in (0, 3) or n == 12:
                for _ in range(6 * many):
                    a, ch = addr()
                    evs.append(["flex.text", [r4(rng), f, a, ch, rng.choice([1, 2, rb(rng)]), rb(rng)], text(rng, n)])
    for k in range(256):
        g = r4(rng)
        evs += [["flex.tempo", [g], w32(rng)], ["flex.sig", [g, k, rb(rng), rb(rng)]], ["flex.sig", [g, rb(rng), k, rb(rng)]],
                ["flex.sig", [g, rb(rng), rb(rng), k]], ["flex.metro", [g, k] + rbytes(rng, 5)], ["flex.metro", [g] + rbytes(rng, 5) + [k]],
                ["flex.metro", [g] + [rb(rng) for _ in range(6)]]]
        for _ in range(many):
            a, ch = addr()
            evs += [["flex.chord", [g, a, ch], rbytes(rng, 12)], ["flex.key", [g, a, ch, k >> 4, k & 15]]]
    for t in range(16):
        for b2 in range(256):
            p = packet(rng, t, b2)
            evs.append(["flex.view", p])
            if t == 13:
                evs += [["flex.view", packet(rng, t, b2)] for _ in range(2 * many)]
    for z in range(13):                       # text ending anywhere
        for _ in range(4):
            evs.append(["flex.view", [0xD0, rb(rng), 1, 0] + text(rng, z) + [0] * (z < 12) + text(rng, 11 - z)])
    return group(evs)


# ------------------------------------------------------------------- stream
def stream(rng, many):
    evs = []
    for k in range(256):
        evs += [["st.disc", [k & 31, rb(rng), rb(rng)]], ["st.disc", [rng.randrange(32), k, rb(rng)]], ["st.disc", [rng.randrange(32), rb(rng), k]],
                ["st.disc0", [k & 31]],
                ["st.info", [k & 127, k >> 7, rng.randrange(4), rng.randrange(4), rb(rng), k]], ["st.info0", [k & 127, k >> 7, rng.randrange(4), rng.randrange(4)]],
                ["st.fbd", [rng.choice([255, rng.randrange(32)]), rng.randrange(4)]]]
    for fb in list(range(32)) + [255]:
        for fl in range(4):
            evs.append(["st.fbd", [fb, fl]])
    for p in (1, 2):
        for e in range(4):
            evs += [["st.req", [p, e]], ["st.not", [p, e]], ["st.req0", [p]], ["st.not0", [p]]]
    r14 = lambda: rng.choice([0, 1, 127, 128, 8191, 8192, 16383, 16256, rng.randrange(16384), 1 << rng.randrange(14)])
    r28 = lambda: rng.choice([0, 127, 128, 16383, 16384, 2097151, 2097152, (1 << 28) - 1, rng.randrange(1 << 28), 1 << rng.randrange(28)])
    for _ in range(250 * many):
        evs.append(["st.ident", [r14(), r14(), r28()], [0, r7(rng), r7(rng), r7(rng)]])
    for d in (1, 2, 3):
        for fb in range(32):
            evs += [["st.fbi", [fb, d, rng.randrange(16), rng.randrange(1, 17)]], ["st.fbi1", [fb, d, rng.randrange(16)]]]
        for n in range(1, 17):
            evs += [["st.fbi", [rng.randrange(32), d, 16 - n, n]], ["st.fbo", [rng.randrange(32), 16 - n, n], [1, d, 0, 0, 0, 0]]]
        for m1 in range(3):
            for hint in range(4):
                if hint and not (d & hint):
                    continue
                for act in (0, 1):
                    for _ in range(4 * many):
                        evs.append(["st.fbo", [rng.randrange(32), rng.randrange(16), rng.randrange(1, 17)], [act, d, m1, hint, rb(rng), rb(rng)]])
    for fb in range(32):
        evs.append(["st.fbo0", [fb, rng.randrange(16)]])
    for n in range(15):
        for f in range(4):
            for _ in range(2 * many):
                evs.append(["st.name", [f], text(rng, n)])
                if f != 2:
                    evs.append(["st.pid", [f], text(rng, n, False)])
                if n < 14:
                    evs.append(["st.fbn", [f, rng.randrange(32)], text(rng, n)])
    for t in range(16):
        for b2 in range(256):
            evs.append(["st.view", packet(rng, t, b2)])
    ascii16 = lambda p: p[:2] + [b & 127 for b in p[2:]] if p[1] == 4 else p
    for st in [0, 1, 2, 3, 4, 5, 6, 7, 15, 16, 17, 18, 19, 0x20, 0x21, 0x80, 0x83, 0x90, 0x92]:
        for f in range(4):
            for _ in range(6 * many):
                evs.append(["st.view", ascii16([0xF0 + 4 * f + rng.randrange(4), st] + rbytes(rng, 14))])
    evs = [["st.view", ascii16(e[1])] if e[0] == "st.view" else e for e in evs]
    cs = group(evs)
    for _ in range(60 * many):
        c = [["st.new", [rng.choice([0, 1, 2, 3, 4, 5, 6, 16, 17, 18]), rng.randrange(4)]]]
        for _ in range(rng.randrange(1, 10)):
            c.append(["st.fmt", [rng.randrange(4)]] if rng.random() < .5 else ["st.byte", rng.choice([[rng.randrange(1, 16), rb(rng)], [0, 240 + rng.randrange(16)]])])
        cs.append(c)
    return cs


def names(rng, many):
    evs = []
    for n in list(range(0, 100)) + [111, 112, 113, 126, 127, 128, 129, 140, 182, 255, 256, 257, 1000]:
        for _ in range(many):
            evs += [["send.name", text(rng, n, rng.random() < .5)], ["send.fbn", [rng.choice([rng.randrange(32), rng.randrange(128)])], text(rng, n, rng.random() < .5)]]
    for n in range(0, 17):
        for _ in range(5 * many):
            evs.append(["send.pid", text(rng, n, False)])
    for n in range(1, 45):                    # a character that may be taken for something else, at the end, the start and anywhere
        for c in (32, 127, 255, 1, 10, 9, 34, 128, 0xC3, 0xBF, 0xEF):
            for i in {0, n - 1, rng.randrange(n), 13 if n > 13 else 0, 12 if n > 12 else 0}:
                x = text(rng, n, False)
                x[i] = c
                if (i + n + c) % 2 or many > 4:
                    evs.append(["send.name", x])
                else:
                    evs.append(["send.fbn", [rng.randrange(32)], x])
                if n < 17 and c < 128:
                    evs.append(["send.pid", x])
    return group(evs, 6)
