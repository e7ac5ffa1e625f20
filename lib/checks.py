"""One function per property: which specification modules are model checked, which cases run on the code."""
import gen_calls as gk
import gen_ci as gc
import gen_common as gm
import gen_inst as gi
import gen_jr as gj
import gen_packets as gp
import gen_store as gt
import gen_stream as gs
import gen_sysex as gx
import gen_values as gv
import json
import os
from vlib import BOTH, ToolError, VERIF

ALL = ("default", "pmr", "custom", "checked")
CHECKS = {}
MBT = {f"C{k:02d}" for k in range(1, 35)}      # properties with behaviours of the specification replayed into the code


def known_findings(prop):
    """Entries of the committed file; there is none at present, so nothing is suppressed anywhere."""
    with open(os.path.join(VERIF, "KNOWN_FINDINGS")) as f:
        return [l[7:].strip() for l in f if l.startswith(f"known: property={prop} ")]


def check(prop, note, level="model_checking"):
    def deco(fn):
        CHECKS[prop] = (fn, level, note)
        return fn
    return deco


def calls_mc(ctx, module, driver, laws, configs=BOTH, **consts):
    """All call histories over small argument sets: laws checked on the specification, then replayed into the code."""
    if ctx.bad:
        return
    val = lambda v: {True: "TRUE", False: "FALSE"}[v] if isinstance(v, bool) else f'"{v}"' if isinstance(v, str) else str(v)
    behs = ctx.behaviours(module, "\n".join(f"  {k} = {val(v)}" for k, v in consts.items()) + "\n  Print0 = TRUE", [*laws, "Show"])
    ctx.replay_behaviours(driver, behs, configs)


def stream(ctx, cases, configs=BOTH):
    return ctx.conform("drv_stream", "TraceByteStream", cases, configs)


def stream_mc(ctx, alphabet, depth, invs, whole=(0, 1), configs=BOTH, timeout=800):
    """All streams over the alphabet: checked on the specification, then replayed into the code."""
    for w in whole:
        consts = f"  Alphabet = {{{','.join(map(str, alphabet))}}}\n  MaxLen = {depth}\n  Whole = {'TRUE' if w else 'FALSE'}\n  Print0 = TRUE"
        behs = ctx.behaviours("MC_ByteStream", consts, [*invs, "Show"], timeout=timeout)
        ctx.replay_behaviours("drv_stream", behs, configs)


def mixed(ctx, w, **kw):
    """Everything the stream can hold, with parser controls in between; also on two parsers at a time."""
    cases = gs.random_cases(ctx.rng, ctx.n(800, 8000), w, units=14, control=.15, pon=.95, **kw)
    return cases + gm.pairs(ctx.rng, cases, ctx.n(150, 1500))


@check("C01", "channel voice and system common decoding incl. running status")
def c01(ctx):
    stream_mc(ctx, [0x05, 0x7F, 0x93, 0xC1, 0xF1, 0xF2, 0xF6, 0xF4, 0xF0, 0xF7, 0xF8], ctx.n(4, 5),
              ["MessagesExact", "ChunkFree", "BulkAgrees"], whole=(0,))
    cases = gs.exhaustive_messages(ctx.rng)
    cases += gs.random_cases(ctx.rng, ctx.n(3000, 30000), gs.MSGW)
    cases += mixed(ctx, gs.ALLW)
    cases += gs.long_running(ctx.rng, ctx.n((300, 1500, 33000), (300, 1500, 33000, 70000)))
    stream(ctx, cases)


@check("C02", "system realtime bytes anywhere in the stream")
def c02(ctx):
    stream_mc(ctx, [0x05, 0x90, 0xC1, 0xF2, 0xF0, 0xF7, 0xF8, 0xF9, 0xFF], ctx.n(4, 5), ["RealtimeTransparent"])
    cases = gs.realtime_everywhere(ctx.rng, 0) + gs.realtime_everywhere(ctx.rng, 1)
    cases += gs.random_cases(ctx.rng, ctx.n(2000, 25000), gs.ALLW, prt=.4)
    cases += mixed(ctx, gs.ALLW, prt=.4)
    stream(ctx, cases)


@check("C03", "SysEx in the byte stream, packet delivery")
def c03(ctx):
    stream_mc(ctx, [0x00, 0x41, 0x90, 0xF0, 0xF7, 0xF1, 0xF5, 0xF8], ctx.n(4, 6), ["SysexExact"], whole=(0,))
    stream_mc(ctx, [0x41, 0xF0, 0xF7], ctx.n(9, 11), ["SysexExact"], whole=(0,))
    cases = gs.sysex_sweep(ctx.rng, 0, range(0, 61))
    cases += gs.random_cases(ctx.rng, ctx.n(2500, 30000), gs.SXW, whole=0)
    cases += mixed(ctx, gs.ALLW, whole=0)
    cases += gs.long_sysex(ctx.rng, 0, [500, 1023, 1024, 1025, 1530, 1536, 1542, 3000, 20000] + ctx.n([], [66000, 400000]))
    stream(ctx, cases)


@check("C04", "SysEx in the byte stream, whole message delivery")
def c04(ctx):
    stream_mc(ctx, [0x00, 0x41, 0x90, 0xF0, 0xF7, 0xF1, 0xF5, 0xF8], ctx.n(4, 6), ["SysexExact"], whole=(1,), configs=ALL)
    stream_mc(ctx, [0x00, 0x41, 0xF0, 0xF7], ctx.n(7, 9), ["SysexExact", "BulkAgrees"], whole=(1,))
    cases = gs.sysex_sweep(ctx.rng, 1, range(0, 61))
    cases += gs.random_cases(ctx.rng, ctx.n(2500, 30000), gs.SXW, whole=1)
    cases += mixed(ctx, gs.ALLW, whole=1)
    cases += gs.long_sysex(ctx.rng, 1, [1000, 1022, 1023, 1024, 1025, 1026, 1027, 2047, 2048, 2049, 2051, 4100, 16383, 16384,
                                        16386, 17000, 33000, 65535, 65536, 65540, 70000] + ctx.n([], [131072, 131073, 200000, 300000]))
    stream(ctx, cases, ALL)


@check("C05", "chunking, reset, enabling, group")
def c05(ctx):
    for w in (0, 1):
        stream_mc(ctx, [0x41, 0x92, 0xF0, 0xF7, 0xF2, 0xF8, 300, 301, 302, 303], ctx.n(4, 5),
                  ["SilentWhenDisabled", "ResetForgets", "ChunkFree"], whole=(w,))
    cases = gs.control_cases(ctx.rng, ctx.n(1500, 20000)) + gs.random_cases(ctx.rng, ctx.n(800, 10000), gs.ALLW, units=12, control=.25, pon=.8)
    cases += gs.big_chunks(ctx.rng, 0, [300, 1000] + ctx.n([], [66000])) + gs.big_chunks(ctx.rng, 1, [300, 2000, 66000])
    stream(ctx, gs.control_everywhere(ctx.rng) + cases + gm.pairs(ctx.rng, cases, ctx.n(300, 3000)), ALL)


@check("C06", "packets to bytes and back")
def c06(ctx):
    calls_mc(ctx, "MC_Encoding", "drv_stream", ["ThereAndBack", "BytesSane", "FromSane"], Big=ctx.thorough)
    evs = gs.to_cases(ctx.rng, ctx.n(8000, 60000)) + gs.from_cases(ctx.rng) + gs.trip_cases(ctx.rng, ctx.n(4000, 40000))
    stream(ctx, gs.group_events(evs, 50))


# ------------------------------------------------------------------- SysEx
def histories(ctx, eight, n, **kw):
    """Packet histories, some on two collectors at a time"""
    cases = gx.history_cases(ctx.rng, eight, n, **kw)
    return cases + gm.pairs(ctx.rng, cases, n // 5)


def sysex(ctx, cases, configs=ALL):
    return ctx.conform("drv_sysex", "TraceSysex", cases, configs)


def sysex_mc(ctx, eight, depth, limit, loads, configs=BOTH):
    consts = f"  Eight = {'TRUE' if eight else 'FALSE'}\n  MaxLen = {depth}\n  Limit = {limit}\n  Loads = {{{','.join(map(str, loads))}}}\n  Print0 = TRUE"
    behs = ctx.behaviours("MC_Sysex", consts, ["DeliversExactly", "Show"])
    ctx.replay_behaviours("drv_sysex", behs, configs)


LONG = [100, 127, 128, 129, 255, 256, 257, 1000, 5000]


@check("C07", "7 bit SysEx segmentation and reassembly")
def c07(ctx):
    sysex_mc(ctx, False, 2, 0, [1, 2, 5], ALL)
    cases = gx.segment_cases(ctx.rng, False, range(0, 40), gx.IDS + [[0, 0, 0]])
    cases += gx.segment_cases(ctx.rng, False, [ctx.rng.randrange(300) for _ in range(6)], [gx.rid(ctx.rng) for _ in range(ctx.n(150, 1500))])
    cases += gx.long_cases(ctx.rng, False, LONG + [16380, 16384, 16385, 20000, 40000, 66000] + ctx.n([], [131080]))
    cases += histories(ctx, False, ctx.n(600, 6000), broken=.1) + histories(ctx, False, ctx.n(400, 4000), limits=(0, 1, 5, 20, 1000), broken=.1)
    sysex(ctx, cases)


@check("C08", "8 bit SysEx segmentation and reassembly")
def c08(ctx):
    sysex_mc(ctx, True, 2, 0, [1, 3, 6], ALL)
    cases = gx.segment_cases(ctx.rng, True, range(0, 70), gx.IDS)
    cases += gx.segment_cases(ctx.rng, True, [ctx.rng.randrange(300) for _ in range(6)], [gx.rid(ctx.rng) for _ in range(ctx.n(150, 1500))])
    cases += gx.long_cases(ctx.rng, True, LONG + [16380, 16384, 16385, 20000, 40000, 66000] + ctx.n([], [131080]))
    cases += histories(ctx, True, ctx.n(600, 6000), broken=.1) + histories(ctx, True, ctx.n(400, 4000), limits=(0, 1, 5, 20, 1000), broken=.1)
    sysex(ctx, cases)


@check("C09", "7 bit SysEx collector, arbitrary packet histories")
def c09(ctx):
    sysex_mc(ctx, False, ctx.n(4, 5), 0, [1, 2, 5], ALL)
    sysex_mc(ctx, False, ctx.n(3, 4), 0, [1, 2, 3, 4, 5])
    sysex(ctx, histories(ctx, False, ctx.n(2500, 30000)) + gx.long_cases(ctx.rng, False, [300, 17000])
          + histories(ctx, False, ctx.n(600, 6000), limits=(0, 1, 2, 5, 11, 12, 40, 1000)))


@check("C10", "8 bit SysEx collector, arbitrary packet histories")
def c10(ctx):
    sysex_mc(ctx, True, ctx.n(3, 4), 0, [1, 3, 4], ALL)
    sysex_mc(ctx, True, 4, 0, ctx.n([3], [3, 6]))
    sysex(ctx, histories(ctx, True, ctx.n(2500, 30000)) + gx.long_cases(ctx.rng, True, [300, 17000])
          + histories(ctx, True, ctx.n(600, 6000), limits=(0, 1, 2, 5, 11, 12, 40, 1000)))


@check("C11", "size limits")
def c11(ctx):
    for eight in (False, True):
        for lim in ctx.n((1, 5, 11) if eight else (1, 5), (1, 2, 3, 5, 6, 10, 11, 12)):
            sysex_mc(ctx, eight, 3 if eight else ctx.n(4, 5), lim, [3, 6] if eight else [2, 5], ALL if ctx.thorough else ("default",))
        sysex(ctx, gx.limit_sweep(ctx.rng, eight, [1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 13, 14, 25, 26, 127, 128, 129] + ctx.n([], [256, 1000]))
              + gx.limit_large(ctx.rng, eight, [1024, 4096, 16383, 16384, 16385, 20000, 33000, 65536] + ctx.n([], [65535, 70000]))
              + gx.limit_huge(ctx.rng, eight) + gx.limit_changes(ctx.rng, eight, ctx.n(150, 2000)) + gx.limit_midway(ctx.rng, eight, ctx.n(300, 3000))
              + histories(ctx, eight, ctx.n(1000, 12000), limits=(0, 1, 2, 3, 5, 6, 8, 11, 12, 20), broken=.2))


@check("C27", "SysEx codecs")
def c27(ctx):
    calls_mc(ctx, "MC_Codec", "drv_sysex", ["ReadBack", "SevenBit"], MaxLen=ctx.n(2, 3), Big=ctx.thorough)
    ci_mc(ctx, "universal")
    sysex(ctx, gx.codec_cases(ctx.rng, ctx.n(2500, 30000)) + gx.codec_large(ctx.rng))
    ci(ctx, gc.universal(ctx.rng, ctx.n(1, 20)), ALL)


# ------------------------------------------------------- jitter reduction
@check("C28", "JR clock follower")
def c28(ctx):
    ctx.mc("MC_JrFollower", "  Tick = 4\n  Modulus = 8\n  Offset0 = 6\n  MaxLen = %d\n  Gaps = {0,1,3,7}\n  Delays = {0,3,9}\n  Print0 = FALSE" % ctx.n(4, 5),
           ["Ordered", "OffsetCovers", "NeverBeforeSending", "ClockNotLate"], props=["OffsetGrows"])
    behs = ctx.behaviours("MC_JrFollower", "  Tick = 160\n  Modulus = 65536\n  Offset0 = 10000\n  MaxLen = %d\n  Gaps = {0,1,40000}\n  Delays = {0,7000,30000}\n  Print0 = TRUE" % ctx.n(4, 5),
                          ["Ordered", "OffsetCovers", "NeverBeforeSending", "ClockNotLate", "Show"])
    ctx.replay_behaviours("drv_jr", behs)
    both = gj.cases(ctx.rng, ctx.n(1500, 15000), 30)
    ctx.conform("drv_jr", "TraceJr", gj.edges(ctx.rng) + both + gm.pairs(ctx.rng, both, ctx.n(200, 2000)) + gj.cases(ctx.rng, ctx.n(20, 200), 500) +
                gj.born(ctx.rng) + gj.fine(ctx.rng, ctx.n(2000, 20000)))


@check("C30", "JR clock")
def c30(ctx):
    ctx.mc("MC_JrClock", "  Modulus = 8\n  HourTicks = 11\n  TickLen = 4\n  MaxLen = %d\n  Steps <- SmallSteps\n  Print0 = FALSE" % ctx.n(3, 5),
           ["Counts", "Adds", "StandsStill", "Inverse"])
    behs = ctx.behaviours("MC_JrClock", "  Modulus = 65536\n  HourTicks = 112500000\n  TickLen = 32000\n  MaxLen = %d\n  Steps <- RealSteps\n  Print0 = TRUE" % ctx.n(4, 5),
                          ["Counts", "Adds", "StandsStill", "Inverse", "Show"])
    ctx.replay_behaviours("drv_jr", behs)
    ctx.conform("drv_jr", "TraceJr", gj.readings(ctx.rng, ctx.n(400, 5000)) + gj.differences(ctx.rng, ctx.n(100, 2000)))


STORES = ("default", "custom", "pmr")


@check("C31", "storage of SysEx data")
def c31(ctx):
    laws = ["HoldsWithin", "LimitKept", "IdleSmall", "Bounded"]
    for kind in ("c7", "c8", "p"):
        consts = '  Keep = 16384\n  Slack = 4096\n  Kind = "%s"\n  MaxLen = %d\n  Feeds = {40,9000}\n  Limits = {%s}\n  Print0 = TRUE'
        behs = ctx.behaviours("MC_Store", consts % (kind, ctx.n(3, 4) + (kind == "p"), ctx.n("0,50,30000", "0,5,50,30000")), [*laws, "Show"])
        ctx.conform("drv_store", "TraceStore", [b["case"] for b in behs], STORES)
    ctx.conform("drv_store", "TraceStore", gt.limits(ctx.rng) + gt.collectors(ctx.rng, ctx.n(600, 6000)) + gt.parsers(ctx.rng, ctx.n(500, 5000)) + gt.endings(ctx.rng) +
                gt.objects(ctx.rng, ctx.n(600, 6000)), STORES)


@check("C32", "callbacks that act on their caller or throw")
def c32(ctx):
    laws = ["AsAfterwards", "StartsOver", "Quiet", "Unmoved"]
    for kind, whole, chunks, acts in (("p", "FALSE", "PChunks", "PActs"), ("p", "TRUE", "WChunks", "WActs"), ("7", "FALSE", "C7Chunks", "CActs"), ("8", "FALSE", "C8Chunks", "CActs")):
        consts = '  Kind = "%s"\n  Whole = %s\n  Chunks <- %s\n  Actions <- %s\n  MaxLen = %d\n  Print0 = TRUE'
        ctx.replay_behaviours("drv_calls", ctx.behaviours("MC_Callbacks", consts % (kind, whole, chunks, acts, ctx.n(4, 5)), [*laws, "Show"]))
    ctx.conform("drv_calls", "TraceCallbacks", gk.every_delivery(ctx.rng) + gk.parsers(ctx.rng, ctx.n(800, 8000)) + gk.collectors(ctx.rng, ctx.n(800, 8000)))


@check("C33", "storage that runs out")
def c33(ctx):
    for kind, parts, depth, poor in (("p", "PParts", ctx.n(4, 5), 0), ("p", "PFew", ctx.n(6, 7), 500), ("7", "C7Parts", ctx.n(4, 5), 0), ("8", "C8Parts", ctx.n(4, 5), 0)):
        consts = '  Kind = "%s"\n  Parts <- %s\n  MaxLen = %d\n  Poor = %d\n  Print0 = TRUE' % (kind, parts, depth, poor)
        behs = ctx.behaviours("MC_Starve", consts, ["Contained", "OnlyItself", "GoesOn", "Show"])
        cases = [b["case"] for b in behs]
        ctx.conform("drv_calls", "TraceCallbacks", [list(x) for x in {json.dumps(c): c for c in cases}.values()], STORES)
    ctx.conform("drv_calls", "TraceCallbacks", gk.starved_parsers(ctx.rng, ctx.n(120, 1200)) + gk.starved_collectors(ctx.rng, ctx.n(400, 4000)), STORES)


@check("C34", "objects side by side, copied and moved, in one thread or several")
def c34(ctx):
    for kind, whole, chunks, depth in (("p", "FALSE", "PChunks", ctx.n(4, 5)), ("p", "TRUE", "PChunks", ctx.n(4, 5)), ("7", "FALSE", "C7Chunks", ctx.n(4, 5)), ("8", "FALSE", "C8Chunks", ctx.n(4, 5)), ("j", "FALSE", "JChunks", ctx.n(4, 5))):
        consts = '  Kind = "%s"\n  Whole = %s\n  Chunks <- %s\n  MaxLen = %d\n  Print0 = TRUE' % (kind, whole, chunks, depth)
        ctx.replay_behaviours("drv_inst", ctx.behaviours("MC_Instances", consts, ["AsAlone", "Show"]))
    cases = gi.long_ones(ctx.rng, ctx.n((66000,), (66000, 140000))) + gi.at_every_point(ctx.rng) + gi.side_by_side(ctx.rng, ctx.n(1200, 12000), 30)
    ctx.conform("drv_inst", "TraceInstances", cases, STORES)
    ctx.conform("drv_threads", "TraceInstances", cases[::2], ("threads",))


# ------------------------------------------------------------------- values
def values(ctx, cases):
    return ctx.conform("drv_values", "TraceValues", cases)


@check("C12", "resolution changes")
def c12(ctx):
    calls_mc(ctx, "MC_Values", "drv_values", ["FixedPoints", "StrictlyIncreasing", "LowerHalfShift", "RoundTrip"],
             MaxX=ctx.n(9, 12), MaxY=ctx.n(20, 30))
    values(ctx, gv.scaling(ctx.rng, ctx.n(3, 12)) + gv.sweeps("sw.down16", "sw.up14"))


@check("C13", "fixed point arithmetic")
def c13(ctx):
    calls_mc(ctx, "MC_Fixed", "drv_values", ["Arithmetic"], Family="arith", Big=ctx.thorough)
    values(ctx, gv.fixed(ctx.rng, ctx.n(3, 20)) + gv.reals(ctx.rng, ctx.n(3, 20), ("p+r", "p+rf")) + gv.sweeps("sw.p79"))


@check("C14", "conversions from and to real numbers")
def c14(ctx):
    calls_mc(ctx, "MC_Fixed", "drv_values", ["Reals"], Family="reals", Big=ctx.thorough)
    values(ctx, gv.reals(ctx.rng, ctx.n(2, 20)) + gv.roundtrips(ctx.rng, ctx.n(1, 8)) + gv.monotone(ctx.rng, ctx.n(4, 12)) +
           gv.sweeps("sw.rt", "sw.asvel", "sw.rvel", "sw.r79"))


# ------------------------------------------------------------------ packets
def packets(ctx, cases):
    return ctx.conform("drv_packets", "TracePackets", cases)


def packets_mc(ctx, family, laws, depth=1):
    calls_mc(ctx, "MC_Packets", "drv_packets", laws, Family=family, MaxLen=depth, Big=ctx.thorough)


@check("C15", "translation between the protocols")
def c15(ctx):
    packets_mc(ctx, "translate1", ["Translates1"])
    packets_mc(ctx, "translate2", ["Translates2"])
    packets(ctx, gp.translate(ctx.rng, ctx.n(2, 8)))


@check("C16", "protocol agnostic filters and accessors")
def c16(ctx):
    packets_mc(ctx, "read1", ["OneKind"])
    packets_mc(ctx, "read2", ["OneKind"])
    packets(ctx, gp.generic(ctx.rng, ctx.n(1, 8)))


@check("C17", "packet storage, comparison and text form")
def c17(ctx):
    packets_mc(ctx, "container", ["SettersIsolated", "TextSaysIt"], ctx.n(2, 3))
    packets(ctx, gp.container(ctx.rng, ctx.n(2, 15)))


@check("C18", "channel voice factories and views")
def c18(ctx):
    packets_mc(ctx, "voice1", ["Factories"])
    packets_mc(ctx, "voice2", ["Factories"])
    packets(ctx, gp.voice(ctx.rng, ctx.n(10, 40)))


@check("C19", "system, utility and SysEx packets")
def c19(ctx):
    packets_mc(ctx, "system", ["SystemLaw"])
    packets_mc(ctx, "sx7", ["CarriesAdded"], ctx.n(4, 5))
    packets_mc(ctx, "sx8", ["CarriesAdded"], ctx.n(4, 5))
    packets(ctx, gp.others(ctx.rng, ctx.n(4, 20)))


@check("C20", "flex data messages")
def c20(ctx):
    packets_mc(ctx, "flex", ["FlexLaw"])
    packets(ctx, gp.flex(ctx.rng, ctx.n(7, 20)))


@check("C21", "stream messages")
def c21(ctx):
    packets_mc(ctx, "stream", ["StreamLaw"])
    packets_mc(ctx, "streamobj", ["StreamObjLaw"], ctx.n(2, 3))
    packets(ctx, gp.stream(ctx.rng, ctx.n(6, 20)))


@check("C22", "names in stream packets")
def c22(ctx):
    packets_mc(ctx, "names", ["NamesLaw"])
    packets(ctx, gp.names(ctx.rng, ctx.n(4, 20)))


# ------------------------------------------------------------------ MIDI-CI
def ci(ctx, cases, configs=BOTH):
    return ctx.conform("drv_ci", "TraceCi", cases, configs)


def ci_mc(ctx, family, configs=BOTH):
    calls_mc(ctx, "MC_Ci", "drv_ci", ["Header", "Recognised", "ReadsBack", "UniversalLaw", "Sound"], configs, Family=family, Big=ctx.thorough)


@check("C23", "discovery, endpoint information, ACK, NAK, invalidate MUID; the message class")
def c23(ctx):
    ci_mc(ctx, "management")
    ci(ctx, gc.management(ctx.rng, ctx.n(4, 30)))


@check("C24", "profile configuration and process inquiry")
def c24(ctx):
    ci_mc(ctx, "profiles")
    ci(ctx, gc.profiles(ctx.rng, ctx.n(4, 25)))


@check("C25", "property exchange")
def c25(ctx):
    ci_mc(ctx, "properties")
    ci(ctx, gc.properties(ctx.rng, ctx.n(4, 25)))


@check("C26", "validation and bounds on untrusted SysEx")
def c26(ctx):
    ci_mc(ctx, "untrusted", ALL)
    ci(ctx, gc.untrusted(ctx.rng, ctx.n(1, 8)))


# -------------------------------------------------------------------- names
NAMES = ["utilityStatus", "systemStatusNames", "midi1Status", "dataStatus", "voiceStatus", "extendedStatus", "protocol", "extensions",
         "streamStatus", "controlChange", "registeredParameter", "registeredPerNote", "noteManagement", "noteAttribute", "discoveryFilter",
         "manufacturer", "universalType", "universalSubtype", "ciCategory", "ciSubtype", "packetType", "packetFormat", "packetAddress",
         "functionBlock", "ciNumbers", "jrNumbers", "headerTags", "resourceNames"]


@check("C29", "named numbers and texts")
def c29(ctx):
    ctx.replay_behaviours("drv_names", ctx.behaviours("MC_Names", "  Print0 = TRUE", ["Unique", "Fits", "Show"]), ALL)
    ctx.conform("drv_names", "TraceNames", [[[n]] for n in NAMES], ALL)
