#!/usr/bin/env python3
"""mutate CASES OUT [-n N] [-j J] [file regex]: first-order mutants of /repo, run on the cases of the quick checks
(dumpcases.py).  A mutant is killed when an executor's answers change (or it dies, hangs or does not compile).  Survivors
are equivalent, or show what the cases do not exercise."""
import os, random, re, shutil, subprocess, sys, tempfile, threading, json, hashlib
from concurrent.futures import ThreadPoolExecutor
REPO = "/repo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cases, out = sys.argv[1:3]
N, J, rx = 0, 7, ""
a = sys.argv[3:]
while a:
    if a[0] == "-n": N = int(a[1]); a = a[2:]
    elif a[0] == "-j": J = int(a[1]); a = a[2:]
    else: rx = a[0]; a = a[1:]
FLAGS = ["-std=c++17", "-O0", "-DNDEBUG", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS", "-w"]
DRV = {"midi1_byte_stream": ["stream"], "sysex.": ["sysex", "stream", "ci"], "sysex_collector": ["sysex"], "data_message": ["packets", "sysex", "stream"],
       "jitter": ["jr", "packets"], "types": ["values", "packets"], "universal_packet": ["packets", "stream"], "channel_voice": ["packets"],
       "flex": ["packets"], "stream_message": ["packets"], "system_message": ["packets", "stream"], "utility": ["packets"],
       "universal_sysex": ["ci"], "capability": ["ci"]}
SRC = {"stream": ["midi1_byte_stream", "sysex", "universal_packet"], "sysex": ["sysex", "sysex_collector", "universal_packet"], "jr": ["jitter_reduction_timestamps"],
       "values": [], "packets": ["universal_packet", "jitter_reduction_timestamps"], "ci": ["capability_inquiry", "universal_sysex", "sysex", "universal_packet"]}


def mutants():
    res = []
    for d in ("inc/midi", "src"):
        for f in sorted(os.listdir(f"{REPO}/{d}")):
            if f in ("manufacturer.h",) or (rx and not re.search(rx, f)):
                continue
            path = f"{d}/{f}"
            lines = open(f"{REPO}/{path}").read().split("\n")
            for i, l in enumerate(lines):
                code = l.split("//")[0]
                st = code.strip()
                if not st or st.startswith(("#", "*", "/*", "assert", "namespace", "template", "static_assert", "using", "friend")):
                    continue
                if re.match(r"(static )?constexpr \w+ \w+\s*=\s*[\w]+;$", st):
                    continue
                ms = []
                for m in re.finditer(r"<=|>=|==|!=|&&|\|\||<<=?|>>=?|(?<![\w<:])<(?=\s)|(?<=\s)>(?=\s)|(?<=\s)[-+*&|](?=\s)|\+=|-=|\|=|&=", code):
                    for n in {"<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "<<": [">>"], ">>": ["<<"], "<": ["<=", ">"],
                              ">": [">=", "<"], "+": ["-"], "-": ["+"], "*": ["+"], "&": ["|"], "|": ["&"], "+=": ["-="], "-=": ["+="], "|=": ["&=", "="], "&=": ["|="]}.get(m.group(), []):
                        ms.append(code[:m.start()] + n + code[m.end():])
                for m in re.finditer(r"(?<![\w.])(0x[0-9A-Fa-f]+|0b[01]+|\d+)([uU]?)(?![\w.])", code):
                    v = int(m.group(1), 0)
                    for n in {v + 1, v - 1, v ^ (1 << max(0, v.bit_length() - 1))} - {v, -1}:
                        ms.append(code[:m.start()] + str(n) + m.group(2) + code[m.end():])
                for m in re.finditer(r"\btrue\b|\bfalse\b", code):
                    ms.append(code[:m.start()] + ("false" if m.group() == "true" else "true") + code[m.end():])
                m = re.match(r"(\s*(?:else )?if \()(.*)(\)\s*\{?\s*)$", code)
                if m and m.group(2).count("(") == m.group(2).count(")"):
                    ms += [m.group(1) + "true || (" + m.group(2) + ")" + m.group(3), m.group(1) + "false && (" + m.group(2) + ")" + m.group(3)]
                for m in re.finditer(r"!(?=[\w(])", code):
                    ms.append(code[:m.start()] + code[m.end():])
                if st.endswith(";") and re.match(r"[\w.\[\]>()-]+\s*(=|\+=|\|=|&=|-=|>>=|<<=|\(|\+\+)", st) and not re.match(r"(auto|const|int|uint\w*|size_t|bool|return|constexpr|inline|virtual|explicit|~|case|else|for|while|struct|class|static|\w+_t|\w+ \w+\()\b", st):
                    ms.append("")
                for x in ms:
                    res.append((path, i, l, x))
    return res


def sh(cmd, t=120, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=t, **kw).returncode
    except subprocess.TimeoutExpired:
        return -99


def build(root, d, exe):
    srcs = [f"{root}/src/{s}.cpp" for s in SRC[d]] + [f"{V}/harness/drv_{d}.cpp"]
    return sh(["g++", *FLAGS, "-I", f"{root}/inc", "-I", f"{V}/harness", *srcs, "-o", exe], 300)


def run(exe, d, dst, t=120):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:max_allocation_size_mb=1024")
    try:
        with open(f"{out}/{d}.in") as i, open(dst, "w") as o:
            return subprocess.run([exe], stdin=i, stdout=o, stderr=subprocess.DEVNULL, timeout=t, env=env).returncode
    except subprocess.TimeoutExpired:
        return -99


def drivers(path):
    f = os.path.basename(path)
    return next(v for k, v in DRV.items() if f.startswith(k) or k in f) if not f.startswith("sysex.") else DRV["sysex."]


def one(m):
    path, i, old, new = m
    w = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        for d in ("inc", "src"):
            shutil.copytree(f"{REPO}/{d}", f"{w}/{d}")
        ls = open(f"{w}/{path}").read().split("\n")
        ls[i] = new
        open(f"{w}/{path}", "w").write("\n".join(ls))
        for d in drivers(path):
            if build(w, d, f"{w}/x"):
                return "compile"
            if run(f"{w}/x", d, f"{w}/o", 60):
                return "died"
            if open(f"{w}/o", "rb").read() != open(f"{out}/{d}.out", "rb").read():
                return "killed"
        return "SURVIVED"
    finally:
        shutil.rmtree(w, ignore_errors=True)


os.makedirs(out, exist_ok=True)
for d in SRC:
    with open(f"{out}/{d}.in", "w") as o:
        for f in sorted(os.listdir(cases)):
            if f.endswith(f".drv_{d}.default"):
                ls = [l for l in open(f"{cases}/{f}") if '["now"' not in l]
                if len(ls) > 12000:
                    ls = random.Random(1).sample(ls, 12000)
                o.writelines(ls)


def base(d):
    assert build(REPO, d, f"{out}/{d}.exe") == 0, d
    assert run(f"{out}/{d}.exe", d, f"{out}/{d}.out", 600) == 0, d


with ThreadPoolExecutor(6) as ex:
    list(ex.map(base, SRC))
ms = mutants()
print(len(ms), "mutants", flush=True)
if N and N < len(ms):
    ms = random.Random(int(os.environ.get("VERIF_SEED", "1"))).sample(ms, N)
cnt, lock = {}, threading.Lock()
log = open(f"{out}/survivors.txt", "w")


def go(m):
    r = one(m)
    with lock:
        cnt[r] = cnt.get(r, 0) + 1
        if r == "SURVIVED":
            log.write(f"{m[0]}:{m[1] + 1}\n  - {m[2].strip()}\n  + {m[3].strip()}\n")
            log.flush()
        if sum(cnt.values()) % 50 == 0:
            print(sum(cnt.values()), cnt, flush=True)


with ThreadPoolExecutor(J) as ex:
    list(ex.map(go, ms))
print("done", cnt)
