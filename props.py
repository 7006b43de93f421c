"""Which models, cases and trace specifications decide which property."""
import json, random, re
from vlib import sample, parallel, literals

CHECKS = {}
NOTES = {}
NOT_CLAIMED = {}

def check(*ids):
    def deco(f):
        for i in ids:
            CHECKS[i] = f
        return f
    return deco


@check("C15")
def encoder(run):
    cases, more, _ = parallel(lambda: run.model("EncoderImpl", "EncoderMCThorough.cfg" if run.thorough else "EncoderMC.cfg"),
                              lambda: run.model("EncoderImpl", "EncoderSim.cfg", simulate=400 if run.thorough else 60, depth=14),
                              run.build)
    r = rng(run, "big")
    big = []
    for k in range(8, 25 if run.thorough else 23):
        for d in (-1, 0, 1, r.randrange(2, 200)):
            big.append({"fam": "encbig", "room": -1, "sizes": [(1 << k) + d]})
            big.append({"fam": "encbig", "room": -1, "sizes": [r.choice([1, 2, 3, 53, 54]), (1 << k) + d, r.randrange(100)]})
        big.append({"fam": "encbig", "room": r.randrange(1 << k), "sizes": [1 << k, 5]})
    for _ in range(400 if run.thorough else 60):
        sizes = [int(2 ** r.uniform(0, 17)) for _ in range(r.randrange(1, 8))]
        big.append({"fam": "encbig", "room": r.choice([-1, -1, r.randrange(2 * sum(sizes))]), "sizes": sizes})
    for n in lit_sizes(run, 1 << 24, unit=(3, 54, 72)):
        big.append({"fam": "encbig", "room": -1, "sizes": [n]})
        big.append({"fam": "encbig", "room": -1, "sizes": [r.randrange(1, 60), n, r.randrange(60)]})
    cases = sample(run, cases, 20000 if run.thorough else 1500) + more
    for c in cases:
        # How the destination fails.
        c["late"], c["once"] = r.choice([(False, False), (False, False), (True, False), (False, True), (True, True)])
    run.conform("TraceEncoder", cases + big, "enc")


@check("C16")
def decoder(run):
    cases, _, more, _, junk = parallel(lambda: run.model("DecoderMC", "DecoderMCThorough.cfg" if run.thorough else "DecoderMC.cfg"),
                                 lambda: run.model("DecoderMC", "DecoderLive.cfg"),
                                 lambda: run.model("DecoderMC", "DecoderSim.cfg", simulate=1500 if run.thorough else 200, depth=30),
                                 run.build, lambda: run.model("DecoderMC", "DecoderJunk.cfg"))
    if not run.thorough:
        # One sequence of reads for every text.
        one = {}
        for c in sample(run, junk, len(junk)):
            one.setdefault(json.dumps(c["text"]), c)
        junk = list(one.values())
    r = rng(run, "once")
    cases = sample(run, cases, 40000 if run.thorough else 3000) + more
    for c in cases:
        c["once"], c["end"] = r.choice([(False, False), (True, False), (True, True)])
    run.conform("TraceDecoder", cases + junk, "dec")
    # Long texts, long lines, many line breaks in a row.
    r = rng(run, "long")
    big = []
    for n in (3000, 3072, 12288, 49149, 50000, 98304) + ((200000, 393216) if run.thorough else ()):
        for brk in ([], [72], [65536], [70000, 1], [5, 0, 0, 0], [40, 0]):
            if brk[:1] == [5] and n > 4000:
                continue
            for sizes in r.sample([[1 << 20], [16401], [72, 16401], [30000, 1, 0, 30001], [65536], [7000], [4096]], 7 if run.thorough else 2):
                mut = r.choice([{}, {}, {"kind": "set", "pos": r.randrange(n, n * 4 // 3), "val": 42}, {"kind": "cut", "pos": r.randrange(n, n * 4 // 3)}])
                big.append({"fam": "dec", "bytes": n, "brk": brk, "tail": r.choice([0, 1, 5000]), "sizes": sizes, "segs": r.choice([[], [1, 0, 4096], [10000], [65536]]),
                            "eofd": r.random() < .5, "fail": r.choice([-1, -1, -1, r.randrange(n)]), "mut": mut})
    for n in lit_sizes(run, 40000, 24):
        big.append({"fam": "dec", "bytes": n, "brk": r.choice([[], [72]]), "tail": r.choice([0, 1]), "sizes": r.choice([[n], [n, 1], [1 << 20]]), "segs": r.choice([[], [n], [1, n]]),
                    "eofd": r.random() < .5, "fail": -1, "mut": {}})
    run.conform("TraceDecoder", big, "long")


# ---- inputs taken from the code ------------------------------------------------
# Whatever the code compares its inputs with should be among the inputs.

def lit_strs(run, most=120, longest=900):
    r = rng(run, "strs")
    ss = [x for x in literals()[0] if len(x) <= longest]
    return ss if len(ss) <= most else r.sample(ss, most)


def lit_sizes(run, top, most=150, unit=()):
    """Sizes at and around the numbers in the code, also in other units."""
    r = rng(run, "sizes")
    out = set()
    for i in literals()[1]:
        for u in (1,) + tuple(unit):
            out |= {i * u + d for d in (-1, 0, 1) if 0 < i * u + d <= top}
    out = sorted(out)
    return out if len(out) <= most else sorted(r.sample(out, most))


def lit_fill(r, x):
    return r.choice(["start:", "start:", "end:", "end:", "mid:"]) + x.hex()


# ---- sealing and opening -----------------------------------------------------

CH = 16385


def rng(run, salt=""):
    return random.Random("%s/%s/%d" % (run.prop, salt, run.seed))


def lengths(run, more=0):
    """Message lengths at and around everything that could matter."""
    ls = set(range(0, 130))
    for base in (162, 216, 1024, 4096, 8192, 12288, 16384, 32768, CH, 2 * CH, 3 * CH, CH - 16, CH + 16, 65536):
        ls |= {base - 2, base - 1, base, base + 1, base + 2}
    ls |= {b + d for b in (1 << 17, 1 << 18, 64 * CH, 1 << 20, 100 * CH) for d in (-1, 0, 1)}
    r = rng(run, "len")
    for _ in range(more):
        ls.add(r.randrange(1, 4 * CH))
        ls.add(r.randrange(1, 2000))
    return sorted(ls)


FILLS = ["", "zero", "ff", "text", "lf", "same"]
LOOKALIKES = ["bom", "comment", "gzip", "sig", "b64", "enc", "crlf", "trail", "nul", "eof"]
SEGS = [[], [1], [1, 0], [2, 3], [0, 0, 7], [54], [72], [73, 1], [512], [4096], [16384], [16385], [16386], [16384, 1],
        [8192, 0, 8193], [32768], [16401], [1, 16385], [100, 16384, 1, 0]]


def seal_cases(run, n=None):
    r = rng(run, "seal")
    out = []
    for ln in lengths(run, 200 if run.thorough else 20):
        fills = FILLS if run.thorough or ln < 3 else [r.choice(FILLS)]
        for f in fills:
            out.append({"fam": "seal", "via": "api" if r.random() < .6 else "default", "len": ln, "fill": f,
                        "prot": r.random() < .3, "existed": r.choice([0, 0, 1, 100, 50000]),
                        "name": r.choice(["message", "m.txt", ".enc", "a b", "x.enc", "\u00fc\n", "-c", "M" * 250, "/".join(["d" * 200] * 3) + "/m"])})
    for ln in (0, 1, 100, CH, CH + 1):
        for via in ("cli", "clidefault"):
            out.append({"fam": "seal", "via": via, "len": ln, "fill": "text"})
    for ln in lit_sizes(run, 1 << 25 if run.thorough else 1 << 22, 300, (16, 1024, CH)):
        out.append({"fam": "seal", "via": r.choice(["api", "default"]), "len": ln, "fill": r.choice(FILLS)})
    for x in lit_strs(run):
        for ln in (len(x), len(x) + r.randrange(1, 200), CH + r.randrange(100)):
            out.append({"fam": "seal", "via": r.choice(["api", "default"]), "len": ln, "fill": lit_fill(r, x)})
    for f in LOOKALIKES:
        for ln in (1, 2, 3, 4, 10, 54, 100, 162, 1000, CH - 1, CH, CH + 1, 2 * CH, 40000):
            out.append({"fam": "seal", "via": r.choice(["api", "default", "pkg", "cli" if ln in (3, 100, CH) else "api"]), "len": ln, "fill": f})
    return out


def big_cases(run):
    out = [{"fam": "seal", "via": "api", "len": 257 * CH + 5, "fill": "same"},
           {"fam": "seal", "via": "pkg", "len": 300 * CH, "fill": "same"},
           {"fam": "seal", "via": "pkg", "len": 65537 * CH + 7, "stream": True}]
    return out


@check("C09")
def roundtrip(run):
    run.build()
    run.model("SealedMC", "SealedMC.cfg")
    cases = seal_cases(run) + big_cases(run)[:2]
    cases += [{"fam": "seal", "via": "api", "len": n, "fill": "text"} for n in (255 * CH, 256 * CH, 256 * CH + 1, (1 << 22) + 1, (1 << 23) + 1)]
    for n in ((1 << 31) - 1, 1 << 31, (1 << 31) + 5, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, (1 << 33) + 7, 1 << 40):
        cases.append({"fam": "hugeseal", "size": n})
    cases = big_cases(run)[2:] + cases
    run.conform("TraceSealed", cases, "roundtrip")
    # Messages and encrypted files that are links, or whose names have other forms.
    r = rng(run, "linked")
    hs = linked(run, r, "ED", 120 if run.thorough else 40) + odd_names(run, r, "ED", 1000 if run.thorough else 20)
    run.conform("TracePsignify", hs, "linked")


def nonce_cases(run):
    """The nonce counter at every carry."""
    if not run.innonce:
        return []
    r = rng(run, "nonce")
    bs = []
    for j in range(25):
        for low in (255, 254, 0, 127, 128):
            for high in (0, 1, 254, 255, r.randrange(256)):
                n = [0] * 24
                for i in range(j):
                    n[23 - i] = low
                if j < 24:
                    n[23 - j] = high
                bs.append(n)
    bs += [[255] * j + [0] + [255] * (23 - j) for j in range(24)] + [[r.randrange(256) for _ in range(24)] for _ in range(50)]
    bs = [list(t) for t in sorted(set(map(tuple, bs)))]
    return [{"fam": "nonces", "befores": bs}]


@check("C14")
def encformat(run):
    run.build()
    run.model("SealedMC", "SealedMC.cfg")
    r = rng(run)
    cases = []
    for c in seal_cases(run):
        if run.thorough or c["len"] % 3 == 0 or c["len"] > 4000:
            cases.append(c)
    for ln in lengths(run, 100 if run.thorough else 10):
        cases.append({"fam": "refopen", "via": r.choice(["api", "api", "cli" if ln < 200 else "api", "pkg"]), "len": ln,
                      "fill": r.choice(FILLS), "width": r.choice([72, 72, 4, 8, 64, 68, 71, 1]) if ln < 40000 else 72,
                      "nolf": r.random() < .2, "extralf": r.random() < .2, "prot": r.random() < .2,
                      "comment": r.choice(["", "", "x", "made elsewhere", "A" * 300])})
        cases[-1]["prot"] &= cases[-1]["via"] != "cli"
    for n in (1, 53, 54, 55, 16384, 16385, 16386, 40000):
        cases.append({"fam": "golden", "name": "g%d" % n})
    for ch, rem in ((1 << 31, 0), (1 << 32, 0), (1 << 32, 1), ((1 << 32) + 5, 3), (65536, 1), (256, 16384), (1 << 40, 7), (1 << 48, 9)):
        cases.append({"fam": "hugehdr", "chunks": ch, "rem": rem})
    cases += big_cases(run)[:2]
    cases += [{"fam": "refopen", "via": "api", "len": 258 * CH + 1, "fill": ""},
              {"fam": "refopen", "stream": True, "len": 66000 * CH}]
    cases = big_cases(run)[2:] + cases
    run.conform("TraceSealed", cases + nonce_cases(run), "format")


@check("C13")
def nonces(run):
    run.build()
    run.model("SealedMC", "SealedMC.cfg")
    run.serial_trace = True
    cases = big_cases(run)
    for ln in (0, 1, 100, CH, 2 * CH, 5 * CH + 3):
        for via in ("api", "pkg", "cli"):
            cases.append({"fam": "seal", "via": via, "len": ln, "fill": "same", "times": 40 if via != "cli" else 6})
    cases += [{"fam": "seal", "via": "pkg", "len": n * CH + 1, "fill": "same"} for n in (2, 3, 15, 16, 17, 127, 128, 255, 256, 257, 511, 512, 513)]
    if run.thorough:
        cases += [{"fam": "seal", "via": "pkg", "len": 2, "fill": "zero", "times": 20000},
                  {"fam": "seal", "via": "pkg", "len": 131000 * CH, "stream": True}]
    r = rng(run, "scarce")
    for left in sorted({0, 1, 8, 16, 31, 32, 33, 63, 64, 65, 96, 128, -1} | set(range(0, 140, 1 if run.thorough else 7))):
        cases.append({"fam": "sealscarce", "left": left, "step": r.choice([1, 7, 16, 31, 32, 100]), "len": r.choice([0, 10, CH + 1])})
    run.conform("TraceSealed", cases + nonce_cases(run), "nonces")


@check("C18")
def delivery(run):
    run.build()
    run.model("SealedMC", "SealedMC.cfg")
    r = rng(run)
    cases = []
    lens = [0, 1, 2, 53, 72, 100, CH - 1, CH, CH + 1, 2 * CH, 2 * CH + 1, 3 * CH + 7]
    for ln in lens:
        for segs in SEGS:
            if ln > 20000 and segs and sum(segs) / len(segs) < 2 and not run.thorough and r.random() < .7:
                continue
            cases.append({"fam": "seal", "via": "pkg", "len": ln, "segs": segs, "eofd": r.random() < .5})
            cases.append({"fam": "refopen", "raw": True, "len": ln, "segs": segs, "eofd": r.random() < .5})
            if r.random() < (1 if run.thorough else .3):
                cases.append({"fam": "refopen", "via": r.choice(["pkg", "fifo"]), "len": ln, "segs": segs})
        # A source that fails, ends early or has more than was announced.
        for at in {0, 1, 71, 72, ln // 2, ln - 1, ln, CH - 1, CH, CH + 1}:
            if 0 <= at <= ln:
                cases.append({"fam": "seal", "via": "pkg", "len": ln, "fail": at, "failw": r.random() < .5, "segs": r.choice(SEGS)})
        for d in {1, 2, 16, CH - 1, CH, CH + 1, 2 * CH, 70000, -1, -2, -(ln // 2), -ln, -CH, -CH + 1, -CH - 1}:
            if d and ln + d >= 0:
                cases.append({"fam": "seal", "via": "pkg", "len": ln, "claim": d, "segs": r.choice(SEGS), "eofd": r.random() < .5})
        cases.append({"fam": "seal", "via": "fifo", "len": ln, "segs": r.choice(SEGS)})
    for ln in lit_sizes(run, 1 << 22, 200, (CH,)):
        cases.append({"fam": "seal", "via": "pkg", "len": ln, "segs": r.choice([[ln], [ln, 1], [1, ln], [CH, ln]]), "eofd": r.random() < .5, "claim": r.choice([0, 0, 1, -1])})
        cases.append({"fam": "refopen", "raw": True, "len": ln, "segs": r.choice([[ln], [1, ln]]), "eofd": r.random() < .5})
    for _ in range(3000 if run.thorough else 300):
        ln = r.choice(lens + [r.randrange(0, 4 * CH)])
        segs = [r.choice([0, 1, 2, 3, 71, 72, 73, 4096, CH - 1, CH, CH + 1, r.randrange(1, 40000)]) for _ in range(r.randrange(1, 6))]
        if ln > 5000 and sum(segs) / len(segs) < 50:
            segs.append(9000)
        cases.append({"fam": "seal", "via": "pkg", "len": ln, "segs": segs, "eofd": r.random() < .5,
                      "fail": r.choice([-1, -1, r.randrange(0, ln + 1)]), "failw": r.random() < .5})
        cases.append({"fam": "refopen", "raw": True, "len": ln, "segs": segs, "eofd": r.random() < .5})
    run.conform("TraceSealed", cases, "delivery")
    fail_io(run)


def byte_cases(run, dense):
    r = rng(run, "bytes")
    out = []

    def add(**k):
        out.append(dict(k, fam="bytes", own=r.random() < .4))
    # Far into a long file.
    for n in (3, 4, 5, 6, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 256, 257):
        for j in {1, 2, n // 2, n - 2, n - 1}:
            at = 72 + 16401 * j
            kinds = [("flip", 8 * (at + r.randrange(16)), 0), ("flip", 8 * (at + r.randrange(16, 16401)), 0), ("cut", at, 0), ("cut", at + r.randrange(1, 16401), 0),
                     ("del", at + r.randrange(16401), 0), ("fill", at, at + 16401)]
            for kind, pos, to in kinds if run.thorough or n < 10 else [r.choice(kinds)]:
                add(via="pkg", len=n * CH - r.choice([0, 0, 1, 16000]), level="raw", kind=kind, pos=pos, to=to)
            # Through files too, where what came before is already written.
            if n > 32 or n in (3, 6, 16):
                for pos in (at, at + r.choice([1, 15, 16, r.randrange(17, 16401)])):
                    add(via=r.choice(["api", "api", "cli"]), len=n * CH, level="raw", kind="cut", pos=pos)
    for ln in ((0, 10) if not run.thorough else (0, 1, 2, 3, 10, 61)):
        raw = 72 + (ln + 16 if ln else 0)
        for p in range(0, raw * 8, 64):
            add(via="pkg", len=ln, level="raw", kind="flip", pos=p, bulk=64)
        for p in range(0, raw, 32):
            add(via="pkg", len=ln, level="raw", kind="cut", pos=p, bulk=min(32, raw - p))
            add(via="api", len=ln, level="raw", kind="del", pos=p, bulk=min(32, raw - p))
        for n in (1, 2, 15, 16, 17, 33, 16401, 20000):
            add(via="api", len=ln, level="raw", kind="append", val=n)
        add(via="api", len=ln, level="raw", kind="dup")
        # Whole fields, and both parts of fields.
        for a, b in ((0, 8), (0, 7), (7, 8), (0, 40), (8, 40), (40, 72), (0, 72), (72, 88), (88, 1 << 20), (72, 1 << 20), (0, 1 << 20), (40, 56), (56, 72), (8, 72), (40, 88)):
            for v in (0, 255, 1, 32):
                add(via="api", len=ln, level="raw", kind="fill", pos=a, to=b, val=v)
        text = (raw + 2) // 3 * 4 + (raw + 53) // 54
        for p in range(0, text, 32):
            for kind, v in (("cut", 0), ("del", 0), ("set", 65), ("set", 33), ("set", 61), ("set", 10), ("set", 13),
                            ("set", 0), ("set", 200), ("ins", 65), ("ins", 10), ("ins", 61), ("ins", 32), ("flip", 0)):
                b = min(32, text - p)
                if kind == "flip":
                    for q in range(8):
                        add(via="api", len=ln, level="text", kind=kind, pos=p * 8 + q * b, bulk=b)
                else:
                    add(via="api", len=ln, level="text", kind=kind, pos=p, val=v, bulk=b)
        for p in range(0, 60):
            add(via="api", len=ln, level="file", kind="cut", pos=p)
    for ln in (CH, CH + 1, 2 * CH, 2 * CH + 100):
        raw = 72 + ln + 16 * ((ln + CH - 1) // CH)
        marks = {0, 8, 40, 72, 73, 72 + 16, 72 + CH, 72 + 16401, raw, raw - 1, raw - 16, raw - 17, raw - 15, 72 + 16401 + 16}
        for m in marks:
            for p in {m - 1, m, m + 1}:
                if 0 <= p < raw:
                    add(via="pkg", len=ln, level="raw", kind="cut", pos=p)
                    add(via="pkg", len=ln, level="raw", kind="flip", pos=p * 8 + r.randrange(8))
                    add(via="pkg", len=ln, level="raw", kind="del", pos=p)
        for _ in range(400 if run.thorough else 25):
            add(via="pkg", len=ln, level="raw", kind=r.choice(["flip", "flip", "cut", "del"]), pos=r.randrange(raw))
            add(via="api", len=ln, level="text", kind=r.choice(["flip", "cut", "del", "set", "ins"]), pos=r.randrange(raw * 4 // 3),
                val=r.choice([65, 61, 10, 13, 32, 0]))
    # The authentic header names more chunks than there are.
    for ln in (0, 10, CH, 2 * CH):
        k = (ln + CH - 1) // CH
        for c in (k + 1, k + 2, k + 256, k + 65536, k + (1 << 31), k + (1 << 32), k + (1 << 63), (1 << 64) - 1):
            add(via=r.choice(["pkg", "api"]), len=ln, level="raw", kind="append", val=0, count=str(c))
    return out


def fail_io(run, ops=("seal", "open")):
    """Sources and destinations in memory that fail."""
    if not run.inpkg:
        return
    r = rng(run, "failio")
    out = []
    for op in ops:
        for ln in (0, 1, 40, 100, CH - 1, CH, CH + 1, 2 * CH, 3 * CH + 7, 5 * CH):
            whole = ln if op == "open" else 72 + ln + 16 * ((ln + CH - 1) // CH)
            text = 72 + ln + 16 * ((ln + CH - 1) // CH) if op == "open" else ln
            for b64 in (False, True):
                w = whole + (whole // 3 if b64 and op == "seal" else 0)
                s = text + (text // 3 if b64 and op == "open" else 0)
                at = {0, 1, 71, 72, 73, CH, CH + 1, CH + 16, CH + 88, 2 * CH, w // 2, w - 1, w - 2, w} | {r.randrange(w + 1) for _ in range(20 if run.thorough else 4)}
                for a in sorted(x for x in at if 0 <= x <= w):
                    for late, once in ((False, False), (True, False), (False, True), (True, True)):
                        if run.thorough or r.random() < .5:
                            out.append({"fam": "failio", "op": op, "len": ln, "room": a, "late": late, "once": once, "fail": -1, "segs": r.choice(SEGS[:1] + [[], [5000], [1000, 7000]]), "b64": b64})
                at = {0, 1, 71, 72, 73, CH, CH + 1, CH + 88, s // 2, s - 1, s} | {r.randrange(s + 1) for _ in range(4)}
                for a in sorted(x for x in at if 0 <= x <= s):
                    for once, end in ((False, False), (True, False), (True, True)):
                        if run.thorough or r.random() < .5:
                            out.append({"fam": "failio", "op": op, "len": ln, "room": -1, "once": once, "end": end, "fail": a, "segs": r.choice([[], [5000], [1000, 7000]]), "b64": b64})
    run.conform("TraceSealed", out, "failing")


def tamper(run, focus):
    cases, _ = parallel(lambda: run.model("SealedMC", "SealedMC.cfg"), run.build)
    if run.thorough:
        run.model("SealedMC", "SealedDeep.cfg", workers=8)
        more = run.model("SealedMC", "SealedSim.cfg", simulate=400, depth=8)
        cases = cases + more
    else:
        cases = sample(run, cases, 5000) + sample(run, run.model("SealedMC", "SealedSim.cfg", simulate=25, depth=7), 800)
    r = rng(run, "via")
    for c in cases:
        c["via"] = "pkg" if r.random() < .97 else r.choice(["api", "api", "cli"])
    run.conform("TraceSealed", cases, "cells")
    run.conform("TraceSealed", byte_cases(run, 1), "bytes")
    if focus == "C11":
        fail_io(run, ("open",))


@check("C10", "C11")
def tampering(run):
    tamper(run, run.prop)


@check("C12")
def recipients(run):
    run.build()
    run.model("SealedMC", "SealedMC.cfg")
    r = rng(run)
    cases = []
    for kind in ("other", "samenum", "seedbit", "pubhalf"):
        for i in range(60 if run.thorough else 12):
            for ln in (0, 1, 100, CH, CH + 1):
                cases.append({"fam": "wrongkey", "kind": kind, "pos": r.randrange(256), "len": ln, "real": r.random() < .5,
                              "via": "cli" if i == 0 and ln < 200 else "api", "prot": r.random() < .2 and i > 0, "reuse": r.random() < .4})
                cases[-1]["first"] = cases[-1]["real"] and r.random() < .5
    for op in ("tobox", "seal", "cli"):
        for p in range(8):
            cases.append({"fam": "pub", "kind": "small", "pos": p, "op": op})
        for i in range(100 if run.thorough else 12):
            cases.append({"fam": "pub", "kind": "nonpoint", "op": op, "pos": i})
            cases.append({"fam": "pub", "kind": "valid", "op": op, "pos": i})
        for p in (0, 1):
            for b in range(8):
                cases.append({"fam": "pub", "kind": "algo", "pos": p, "val": 1 << b, "op": op})
    run.conform("TraceSealed", cases, "recipients")


# ---- key and signature files ---------------------------------------------------

GOODP = {"algo": "Ed", "num": 1, "key": 1, "len": 0}
GOODS = {"algo": "Ed", "num": 1, "signer": 1, "over": 1, "bad": False, "len": 0}
COMMENTS = ["", "x", "verify with k.pub", "verify with other.pub", "verify with ../k.sec", "verify with ", "signature from k.sec", "psignify encrypted file", "signify private key",
            "key 1 of 2", "bcrypt", "no signature", "encrypted", "rounds: 0", "timestamp:1\tfile:m", "minisign public key 0123456789ABCDEF", "OK", "revoked", "expires 1970-01-01", " ", "\t", "untrusted comment: again", "A" * 56, "A" * 100, "A" * 140, "z" * 900, "\r", "a\rb", "\u0000\u0001",
            "\u00fc\u20ac", "====", "RWQ", "signify public key", "signify secret key", "%s%n%x", "trusted comment: x",
            "-----BEGIN-----", "y" * 1000, "y" * 1003, "y" * 1004, "y" * 1005]
FORMS = ["nolf", "crlf", "nocomment", "twocomments", "extra", "extrapayload", "split", "space", "trailspace", "url", "unpadded",
         "reversed", "oneline", "incomment", "emptypayload", "blankbefore", "leadblank", "hugeline", "hugepayload", "nuls", "otherprefix"]
SPECIALS = ["missing", "dir", "empty", "lf", "garbage", "comment", "text"]


def vcase(r, **k):
    c = {"fam": "verify", "pub": GOODP, "sig": GOODS, "msg": 1, "mlen": r.choice([0, 1, 2, 63, 64, 100, 1000]), "default": r.random() < .5}
    c.update(k)
    return c


def valid_payload_comment(n):
    """A comment that is itself base64 of a payload of n bytes."""
    import base64
    return base64.b64encode(b"Ed" + bytes(range(n - 2))).decode()


def lit_comments(run):
    r = rng(run, "litcomments")
    out = []
    for x in lit_strs(run):
        t = x.decode("utf-8", "replace").replace("\n", " ").replace("\r", " ")
        out.append(r.choice([t, t, t + "x", "x" + t, t + " " + t, "k" + t + " y"]))
    for n in lit_sizes(run, 1005, 40):
        out.append("L" * n)
    return [c for c in out if len(c.encode()) <= 1005]


def comment_cases(run, kinds):
    r = rng(run, "comments")
    out = []
    cs = COMMENTS + [valid_payload_comment(n) for n in (42, 74, 104)] + lit_comments(run)
    if "verify" in kinds:
        for c in RAWCOMMENTS:
            for bad in (False, True):
                for f in ("pform", "sform"):
                    out.append(vcase(r, sig=dict(GOODS, bad=bad), via="cli" if r.random() < .2 else "api", **{f: {"commentb": c}}))
    if "sec" in kinds:
        for c in RAWCOMMENTS:
            for op in ("sign", "open", "tobox"):
                out.append({"fam": "sec", "op": op, "prot": r.random() < .5, "form": {"commentb": c}})
    if "load" in kinds:
        for c in RAWCOMMENTS:
            for kind in ("pub", "sec"):
                out.append({"fam": "load", "kind": kind, "form": {"commentb": c}, "prot": r.random() < .5})
    for c in cs:
        if "verify" in kinds:
            for bad in (False, True):
                for f in ("pform", "sform"):
                    out.append(vcase(r, sig=dict(GOODS, bad=bad), via="cli" if r.random() < .2 else "api", **{f: {"comment": c}}))
        if "sec" in kinds:
            for op in ("sign", "open", "tobox"):
                for prot in (False, True):
                    out.append({"fam": "sec", "op": op, "prot": prot, "form": {"comment": c}})
        if "load" in kinds:
            for kind in ("pub", "sec"):
                out.append({"fam": "load", "kind": kind, "form": {"comment": c}, "prot": r.random() < .5})
                # ... nor is it taken for the payload if that is missing.
                for form in ("emptypayload", "hugeline"):
                    out.append({"fam": "load", "kind": kind, "form": {"comment": c, "form": form}})
    return out


def mutated_forms(run, n, kind, thorough):
    """Alterations of a file whose payload has n bytes."""
    r = rng(run, "forms" + kind)
    out = [{"flip": b + 1} for b in range(n * 8)]
    out += [{"to": m + 1} for m in range(0, n + 8) if m != n]
    out += [{"to": m + 1} for m in (2 * n, 3 * n, 1000)]
    # Bytes taken out of the middle, and put there.
    edges = {"sig": (0, 2, 10, 42, 74), "pub": (0, 2, 10, 42), "sec": (0, 2, 4, 8, 24, 32, 40, 72, 104)}[kind]
    for at in range(n + 1):
        for k in {1, 2, 8, r.randrange(3, 70)} if at in edges else {r.choice([1, 2, 3, 8])}:
            for w in ("next", "prev", "zero", "rand") if at in edges else (r.choice(["next", "zero", "rand"]),):
                out.append({"splice": [{"at": at, "ins": k, "with": w}]})
        if at < n and (at in edges or r.random() < .3 or thorough):
            out.append({"splice": [{"at": at, "del": 1}]})
            out.append({"splice": [{"at": at, "del": 1}, {"at": r.randrange(n), "ins": 1}]})
    for a, b in [(a, b) for a in edges for b in edges if a < b]:
        out.append({"splice": [{"at": a, "del": b - a}]})
        out.append({"splice": [{"at": a, "ins": b - a, "with": "next"}]})
        out += [{"splice": [{"at": at, "ins": b - a}]} for at in edges]
    text = (n + 2) // 3 * 4
    for p in range(text):
        for m, v in (("set", 33), ("set", 61), ("set", 10), ("set", 13), ("set", 32), ("set", 0), ("del", 0), ("ins", 65), ("ins", 10), ("cut", 0), ("flip", r.randrange(8))):
            if thorough or r.random() < .35:
                out.append({"mut2": True, "mut": {"kind": m, "pos": p, "val": v}})
    for p in range(0, 40):
        for m, v in (("set", 10), ("del", 0), ("cut", 0), ("flip", r.randrange(8)), ("set", 0)):
            if thorough or r.random() < .3:
                out.append({"mut": {"kind": m, "pos": p, "val": v}})
    out += [{"form": f} for f in FORMS]
    out += [{"special": s} for s in SPECIALS for _ in range(3)]
    return out


RAWCOMMENTS = [[255, 254], [233], [0xc3], [0xc3, 0x28], [0xed, 0xa0, 0x80], [128] * 20, [0xfe, 0xff, 0, 97], [0xef, 0xbb, 0xbf], [0xe2, 0x80, 0xa8], [0xc2, 0x85], [0xf0, 0x9f, 0x94, 0x91],
               [27, 91, 50, 74], [8] * 40, [127], [0], list(range(1, 10)) + list(range(11, 13)) + list(range(14, 256)), [12], [11], [26], [4]]


def fields(ranges, vals=(0, 255, 1, 32, 69)):
    """Whole fields of a record are set to one value."""
    return [{"fields": [{"from": a, "to": b, "val": v}]} for a, b in ranges for v in vals]


SIGFIELDS = [(0, 2), (0, 1), (1, 2), (2, 10), (2, 6), (6, 10), (10, 42), (42, 74), (10, 74), (73, 74), (0, 74), (2, 74)]
PUBFIELDS = [(0, 2), (0, 1), (1, 2), (2, 10), (2, 6), (6, 10), (10, 42), (41, 42), (0, 42), (2, 42), (10, 26), (26, 42)]
SECFIELDS = [(0, 2), (2, 4), (0, 4), (0, 8), (8, 24), (24, 32), (24, 28), (28, 32), (32, 40), (40, 72), (72, 104), (40, 104), (24, 104), (32, 104), (8, 104), (0, 104)]

# Texts that someone could take for the same.
TEXTS = [t if isinstance(t, bytes) else t.encode() for t in (
    "hello\n", "hello", "hello\r\n", "hello\r", "hello\n\n", " hello\n", "hello \n", "hello\t\n", "HELLO\n", "Hello\n", "\nhello\n",
    "\ufeffhello\n", "hello\0", "hello\n\0", "hello\x1a", "", "\n", "\0", " ", "\r\n", "\0\0", "h\u00e9llo\n", "he\u0301llo\n", b"h\xe9llo\n",
    "hello\nworld\n", "hello\r\nworld\r\n", "hello\rworld\r", "hello world\n", "hello  world\n", "helloworld", "untrusted comment: x\nhello\n",
    "untrusted comment: hello\n", "aGVsbG8K", "aGVsbG8K\n", "68656c6c6f0a", "hello\nuntrusted comment: x\n", "# hello\n", "hello\n#", "\0hello\n")]


def clashes(run, r):
    """The output has the name of an input."""
    out = []
    for mode, flags in (("S", dict(s="a.sec", m="m", x="m")), ("S", dict(s="a.sec", m="m", x="a.sec")), ("S", dict(s="m.sig", m="m")), ("E", dict(p="a.pub", m="m", c="m")),
                        ("E", dict(p="a.pub", m="m", c="a.pub")), ("E", dict(p="m.enc", m="m")), ("D", dict(s="a.sec", c="c", m="c")), ("D", dict(s="a.sec", c="c", m="a.sec")),
                        ("S", dict(s="a.sec", m="a.sec", x="a.sec")), ("S", dict(s="a.sec", m="a.sec")), ("E", dict(p="a.pub", m="a.pub", c="a.pub")), ("V", dict(p="a.pub", m="a.pub", x="a.pub")),
                        ("V", dict(p="a.pub", m="x", x="x")), ("V", dict(p="m", m="m", x="m"))):
        for via in ("api", "cli"):
            for size in (-1, 100, 3 * CH + 5):
                for prot in (False, True):
                    pw = ["p"] if prot else []
                    pre = [env("write", "m", size=size), op("G", "api", p="a", n=not prot, given=pw), op("S", "api", s="a.sec", m="m", x="x", given=pw), op("E", "api", p="a.pub", m="m", c="c"),
                           env("copy", "m.sig", "a.sec"), env("copy", "m.enc", "a.pub"), env("write", "c.dec", size=10), env("write", "m.tmp", size=10)]
                    o = op(mode, via, given=pw, **flags)
                    out.append({"fam": "history", "pre": len(pre), "ops": pre + [o, dict(o)]})
    return out


def linked(run, r, modes, n):
    """The inputs are links to files elsewhere, where other files have the
    names that derive from theirs; or their names have several forms."""
    out = []
    for i in range(n):
        via = r.choice(["api", "api", "cli"])
        prot = r.random() < .3
        pw = ["p"] if prot else []
        size = r.choice([-1, 3, 100, 20000, 3 * CH])
        c = {"fam": "history"}
        if i % 2:
            m, t = r.choice([("m", "t"), ("m", "t.txt"), ("m.txt", "m"), ("d.1/m", "t")])
            b = r.choice(["b", "d.1/b"])
            src = "../far/" if "/" in m else "far/"
            ksrc = "../far/" if "/" in b else "far/"
            pre = [env("mkdir", "far"), env("mkdir", "d.1"), env("write", "far/" + t, size=size), env("symlink", m, src + t), env("write", "w", size=50),
                   op("G", "api", p=b, n=not prot, given=pw), op("G", "api", p="z", n=not prot, given=pw)]
            for e in (".sec", ".pub"):
                pre += [env("copy", "far/k" + e, "z" + e), env("copy", "far/key" + e[:2], b + e), env("symlink", b + e, ksrc + "key" + e[:2])]
            pre += [op("S", "api", s="z.sec", m="w", x="far/" + t + ".sig", given=pw), op("E", "api", p="z.pub", m="w", c="far/" + t + ".enc")]
            good = "far/" + t
        else:
            alias = r.choice(["ld/../", "ld/../", "far//", "./far/", "far/./", "far/deep/../", "ld/../../far/", "././far///"])
            c["as"] = ["far/", alias]
            m, b = "far/m", "far/b"
            pre = [env("mkdir", "far"), env("mkdir", "far/deep"), env("symlink", "ld", "far/deep"), env("write", m, size=size), env("write", "m", size=50),
                   op("G", via, p=b, n=not prot, given=pw + pw), op("G", "api", p="b", n=not prot, given=pw),
                   op("S", "api", s="b.sec", m="m", given=pw), op("E", "api", p="b.pub", m="m")]
            good = m
        pre0 = len(pre)
        S, V, E = op("S", via, s=b + ".sec", m=m, x="", given=pw), op("V", via, p=b + ".pub", m=m, x=""), op("E", via, p=b + ".pub", m=m, c="")
        D = op("D", via, s=b + ".sec", c=m + ".enc", m="far/out", given=pw)
        ops = []
        if "S" in modes or "V" in modes:
            ops += [S, V, dict(V, x=m + ".sig"), op("S", "api", s=b + ".sec", m=m, x="xx", given=pw)]
        if "E" in modes or "D" in modes:
            ops += [E, D, env("copy", "far/e", m + ".enc"), env("symlink", "el", "far/e"), dict(D, c="el", m="out2")]
        if "V" in modes and i % 2:
            # Only what is found next to the other name would do.
            ops += [env("copy", good + ".sig", "xx"), V, env("copy", m + ".sig", "w.sig") if r.random() < .5 else env("delete", m + ".sig"), V]
        elif "V" in modes:
            ops += [env("copy", "m.sig", "xx"), env("copy", "m", m), env("delete", m + ".sig"), V]
        if r.random() < .5:
            ops += [S, V] if "V" in modes else []
        out.append(dict(c, pre=pre0, ops=[dict(o) for o in pre + ops]))
    return out


ODDNAMES = [("$HOME", "m"), ("${USER}", "m"), ("m$x", "m"), ("$", "m"), ("m$$", "m"), ("a*b", "a!b"), ("[m]", "m"), ("m?", "m!"), ("{m,n}", "m"), ("m%41", "mA"), ("%20m", " m"), ("m+n", "m n"), ("~", "m"),
            ("~tester", "m"), ("~/m", "m"), ("-", "m"), ("m\\x41", "mA"), ("\\m", "m"), ("'m'", "m"), ('"m"', "m"), (" m ", "m"), ("m\t", "m"), ("file:m", "m"), ("@m", "m"), ("m#x", "m"), ("m;x", "m"), ("M", "m"),
            ("e\u0301", "\u00e9"), ("\ufb01", "fi"), ("m\u200b", "m"), ("m&amp;", "m&"), ("%HOME%", "m"), ("`m`", "m"), ("!m", "m"), ("#m", "m"), ("m,n", "m"), ("m:n", "m"), ("=m", "m"), ("m|n", "m"), ("m.", "m")]


def odd_names(run, r, modes, n):
    """Names that mean something elsewhere; what they would mean is there, too."""
    out = []
    for name, other, via in sample(run, [x + (v,) for x in ODDNAMES for v in ("api", "cli")], n):
        size = r.choice([3, 100, 20000])
        dirs = sorted({x.split("/")[0] for x in (name, other) if "/" in x})
        pre = [env("mkdir", d) for d in dirs] + [env("write", other, size=50), op("G", "api", p=other, n=True), op("S", "api", s=other + ".sec", m=other), op("E", "api", p=other + ".pub", m=other), env("write", name, size=size)]
        ops = [op("G", via, p=name, n=True)]
        if "S" in modes or "V" in modes:
            ops += [op("S", via, s=name + ".sec", m=name), op("V", via, p=name + ".pub", m=name), op("V", "api", p=name + ".pub", m=name, x=name + ".sig"), op("V", "api", p=name + ".pub", m=other), op("V", "api", p=other + ".pub", m=name),
                    env("copy", name + ".sig", other + ".sig"), op("V", via, p=other + ".pub", m=name), op("V", via, p=other + ".pub", m=other)]
        if "E" in modes or "D" in modes:
            ops += [op("E", via, p=name + ".pub", m=name), op("D", via, s=name + ".sec", c=name + ".enc", m="out"), op("D", via, s=name + ".sec", c=other + ".enc", m="out2"), op("D", via, s=other + ".sec", c=name + ".enc", m="out3"),
                    op("D", "api", s=other + ".sec", c=other + ".enc", m=name)]
        out.append({"fam": "history", "pre": len(pre), "ops": pre + ops})
    return out


def lost_inputs(run, r, modes, n):
    """One of the inputs is not there, but its content is, under other names."""
    out = []
    for mode in modes:
        for i in range(n):
            s, p, m = r.choice(["b", "b", "a"]), "", r.choice(["m", "m", "d/m", "m.txt", "x.sig", "x.enc"])
            s, p = ("b.sec", "b.pub") if s == "b" else ("", "")
            x = r.choice(["", "x", "d/x.sig", "m.sig", m + ".minisig", "n.sig", "x.enc.sig"])
            c = r.choice([m + ".enc", "c", "d/c.enc", "n.enc"])
            if x == m:
                x = ""
            if c == m:
                c = "c"
            pre = [env("mkdir", "d"), env("write", m, size=r.choice([3, 70, 20000])), op("G", "api", p="a", n=True), op("G", "api", p="b", n=True),
                   op("S", "api", s=s or "a.sec", m=m, x=x), op("E", "api", p=p or "a.pub", m=m, c=c)]
            o = op(mode, r.choice(["api", "api", "cli"]), s=s or "a.sec", p=p or "a.pub", m=m, x=x, c=c) if mode in "SV" else op(mode, r.choice(["api", "api", "cli"]), s=s or "a.sec", p=p or "a.pub", m=m if mode == "E" else "out", c=c)
            o["lost"] = r.randrange(1, 4 if mode == "V" else 3)
            o["decoys"] = True
            out.append({"fam": "history", "pre": len(pre), "ops": pre + [o]})
    return out


@check("C02")
def verification(run):
    cases, _ = parallel(lambda: run.model("VerifyDesign", "VerifyDesign.cfg"), run.build)
    r = rng(run)
    exact = [c for c in cases if c["pub"]["len"] == 0 and c["sig"]["len"] == 0]
    cases = exact + sample(run, [c for c in cases if c not in exact], 1500) if not run.thorough else cases
    for c in cases:
        c["mlen"] = r.choice([0, 1, 17, 64, 100])
        c["default"] = r.random() < .5
        if r.random() < .02:
            c["via"] = "cli"
        if r.random() < .5:
            c["numflip"] = r.randrange(64) + 1
    pairs = [(a, b) for a in TEXTS for b in TEXTS]
    near = [(a, b) for a, b in pairs if abs(len(a) - len(b)) <= 3 or a in b or b in a or a.strip() == b.strip()]
    for a, b in near + r.sample([x for x in pairs if x not in near], 200):
        cases.append(vcase(r, signed=list(a), given=list(b), via="cli" if r.random() < .03 else "api"))
    for rel in ("swap", "rotate", "reverse", "sum", "xor", "inverse", "case", "space", "nul", "first", "last", "half", "words"):
        for _ in range(30 if run.thorough else 6):
            cases.append(vcase(r, sig=dict(GOODS, num=2), numrel=rel))
            cases.append(vcase(r, pub=dict(GOODP, num=2), numrel=rel))
    for b in range(64):
        cases.append(vcase(r, sig=dict(GOODS, num=2), numflip=b + 1))
        cases.append(vcase(r, pub=dict(GOODP, num=2), numflip=b + 1))
    for f in mutated_forms(run, 74, "sig", run.thorough):
        cases.append(vcase(r, sform=f, default="special" not in f and r.random() < .5))
    for f in mutated_forms(run, 42, "pub", run.thorough):
        cases.append(vcase(r, pform=f))
    for f in fields(SIGFIELDS):
        cases.append(vcase(r, sform=f))
    for f in fields(PUBFIELDS):
        cases.append(vcase(r, pform=f))
    for v in (0, 255, 1):
        for w in (0, 255, 1):
            # Both key numbers, and numbers and keys.
            for a in ((2, 10), (0, 10), (2, 6)):
                cases.append(vcase(r, sform=fields([a], [v])[0], pform=fields([a], [w])[0]))
                cases.append(vcase(r, sform=fields([a], [v])[0], pform=fields([a], [w])[0], sig=dict(GOODS, bad=True)))
            cases.append(vcase(r, sform=fields([(10, 74)], [v])[0], pform=fields([(10, 42)], [w])[0]))
            for ln in (0, 1, 2, 3):
                cases.append(vcase(r, mlen=ln, sform=fields([(2, 74)], [v])[0], pform=fields([(2, 42)], [w])[0]))
    for ln in (1, 2, 63, 64, 65, 127, 128, 129, 1000, 4096, 8192, 65536, 100001, 1 << 20):
        for p in {0, 1, ln // 2, ln - 1, min(ln - 1, 64), min(ln - 1, 4095), min(ln - 1, 8191), min(ln - 1, 65535)}:
            for m in ("flip", "cut", "del", "ins"):
                cases.append(vcase(r, mlen=ln, mmut={"mut": {"kind": m, "pos": p, "val": r.randrange(8)}}, via="cli" if r.random() < .05 else "api"))
        cases.append(vcase(r, mlen=ln))
        cases.append(vcase(r, mlen=ln, mmut={"mut": {"kind": "ins", "pos": ln, "val": 10}}))
        cases.append(vcase(r, mlen=ln, s="plusl"))
    for x in lit_strs(run):
        for a in (b"hello\n", b""):
            cases.append(vcase(r, signed=list(x + a), given=list(a)))
            cases.append(vcase(r, signed=list(a), given=list(x + a)))
            cases.append(vcase(r, signed=list(a + x), given=list(a)))
            cases.append(vcase(r, signed=list(a), given=list(a + x)))
        cases.append(vcase(r, signed=list(b"a" + x + b"b"), given=list(b"ab")))
        cases.append(vcase(r, signed=list(x), given=list(x.swapcase())))
    for ln in lit_sizes(run, 1 << 24, 60, (1024,)):
        cases.append(vcase(r, mlen=ln))
        cases.append(vcase(r, mlen=ln, mmut={"mut": {"kind": r.choice(["flip", "cut", "del"]), "pos": ln - 1, "val": r.randrange(8)}}))
    for ln in [(1 << 22) + 1, (1 << 24) + 1, (1 << 26) + 1] + ([(1 << 28) + 1, (1 << 30) + 1] if run.thorough else []):
        cases.append(vcase(r, mlen=ln))
        cases.append(vcase(r, mlen=ln, mmut={"mut": {"kind": "flip", "pos": ln - 1, "val": r.randrange(8)}}))
    cases += [vcase(r, special={"msg": s}) for s in SPECIALS]
    run.conform("TraceFiles", huge_sigs(run, True) + cases, "verify")
    # Files whose size is not known in advance, and signatures over all and over nothing of them.
    hs = []
    for src in SIZELESS:
        for via in ("api", "cli"):
            pre = [env("symlink", "l", src), op("G", "api", p="k", n=True), env("copy", "n", "l"), env("write", "e", size=-1), op("S", "api", s="k.sec", m="n", x="xn"), op("S", "api", s="k.sec", m="e", x="xe")]
            hs.append({"fam": "history", "pre": len(pre), "ops": pre + [op("V", via, p="k.pub", m=m, x=x) for m in ("l", "n", "e") for x in ("xn", "xe")]})
    run.conform("TracePsignify", hs, "sizeless")
    # What is to be verified, or with what, is elsewhere.
    run.conform("TracePsignify", lost_inputs(run, r, "V", 200 if run.thorough else 40) + linked(run, r, "SV", 100 if run.thorough else 30) + odd_names(run, r, "SV", 1000), "elsewhere")
    run.conform("TraceFiles", [{"fam": "goldensig", "name": "g%d" % n} for n in (1, 53, 54, 55, 16384, 16385, 16386, 40000)], "golden")


@check("C03")
def malformed(run):
    run.build()
    run.model("VerifyDesign", "VerifyDesign.cfg")
    r = rng(run)
    cases = []
    for kind, n in (("pub", 42), ("sec", 104)):
        for f in mutated_forms(run, n, kind, run.thorough):
            cases.append({"fam": "load", "kind": kind, "form": f, "prot": r.random() < .5})
            if kind == "pub" and ("flip" not in f or r.random() < .2):
                cases.append(vcase(r, pform=f))
            if kind == "sec" and ("flip" not in f or r.random() < .1) and r.random() < .5:
                cases.append({"fam": "sec", "op": r.choice(["sign", "open", "tobox"]), "form": f, "prot": r.random() < .3})
    for f in mutated_forms(run, 74, "sig", run.thorough) + fields(SIGFIELDS):
        if "flip" not in f or r.random() < .2:
            cases.append(vcase(r, sform=f, default="special" not in f))
    for kind, fs in (("pub", PUBFIELDS), ("sec", SECFIELDS)):
        for f in fields(fs, (0, 255)):
            cases.append({"fam": "load", "kind": kind, "form": f, "prot": r.random() < .5})
            if kind == "pub":
                cases.append(vcase(r, pform=f))
            elif f["fields"][0]["from"] > 4:
                cases.append({"fam": "sec", "op": r.choice(["sign", "open", "tobox"]), "form": f, "prot": r.random() < .5})
    for op, args in (("sign", ["sec", "msg"]), ("verify", ["pub", "msg", "sig"]), ("seal", ["pub", "msg"]), ("open", ["sec", "enc"])):
        for a in args:
            for s in SPECIALS + ["notdir", "garbage", "garbage", "garbage"]:
                cases.append({"fam": "op", "op": op, "arg": a, "special": s, "via": "cli" if r.random() < .3 else "api"})
            for s in ("nothing", "nul", "slash", "root", "dot", "dotdot", "long", "longest", "null", "space", "slashes", "tilde", "percent", "one"):
                cases.append({"fam": "op", "op": op, "arg": a, "special": s, "via": "cli" if s not in ("nothing", "nul") and r.random() < .3 else "api"})
        for s in ("notdir", "nothing", "nul", "slash", "long", "longest"):
            if op != "verify":
                cases.append({"fam": "op", "op": op, "arg": "out", "special": s, "via": "cli" if s not in ("nothing", "nul") and r.random() < .3 else "api"})
    run.conform("TraceFiles", cases, "malformed")
    enc = [c for c in byte_cases(run, 1) if run.thorough or r.random() < .3]
    for _ in range(2000 if run.thorough else 200):
        enc.append({"fam": "garbage", "seed": r.randrange(1 << 30), "kind": r.choice(["random", "text", "b64", "lf", "header"]), "len": r.choice([0, 1, 2, 3, 4, 10, 71, 72, 73, 96, 97, 200, 30000])})
    run.conform("TraceSealed", enc, "encrypted")


def sec_cases(run):
    r = rng(run, "sec")
    out = []
    ops = ["sign", "open", "tobox"]
    for prot in (False, True):
        for b in range(104 * 8):
            if 32 <= b < 64 and not (b // 8 == 7 and b % 8 < 7):
                continue  # a large number of rounds
            for op in ops if run.thorough or not prot else [r.choice(ops)]:
                out.append({"fam": "sec", "op": op, "prot": prot, "form": {"flip": b + 1}})
        for op in ops:
            for via in ("api", "cli"):
                if prot and via == "cli":
                    continue
                out.append({"fam": "sec", "op": op, "prot": prot, "via": via})
                for d in ("zerokey", "othercheck", "swaphalves", "otherpub", "keyandsum"):
                    out.append({"fam": "sec", "op": op, "prot": prot, "via": via, "damage": d})
                for i in range(16):
                    out.append({"fam": "sec", "op": op, "prot": prot, "via": "api" if i % 4 else via, "damage": "check", "which": i})
                for a in ("ed", "Ee", "EC", "RS", "\x00\x00", "dE", "E ", "Fd"):
                    out.append({"fam": "sec", "op": op, "prot": prot, "via": via, "algo": a})
                for a in ("bk", "BB", "PB", "\x00\x00", "KB", "BJ", "CK"):
                    out.append({"fam": "sec", "op": op, "prot": prot, "via": via, "kdf": a})
            for rd in (1, 2, 3, 42):
                out.append({"fam": "sec", "op": op, "prot": True, "rounds": rd})
            for f in fields(SECFIELDS, (0, 255, 1, 32)):
                if not (f["fields"][0]["from"] <= 4 < f["fields"][0]["to"] and f["fields"][0]["val"]):
                    out.append({"fam": "sec", "op": op, "prot": prot, "form": f})
            # One field is damaged, and another one set.
            for a in ((8, 24), (24, 32), (32, 40), (40, 72), (72, 104)):
                for v in (0, 255):
                    for b in (8 * 50, 8 * 80 + 3, 8 * 27, 8 * 39 + 7, 8 * 10):
                        if not a[0] <= b // 8 < a[1]:
                            out.append({"fam": "sec", "op": op, "prot": prot, "form": dict(fields([a], [v])[0], flip=b + 1)})
    return out


@check("C04")
def damaged(run):
    cases = life_cases(run, 100, 1, 8000 if run.thorough else 800)
    run.conform("TraceFiles", sec_cases(run), "damaged")
    run.conform("TraceKeys", cases, "retries")


@check("C24")
def comments(run):
    run.build()
    run.model("VerifyDesign", "VerifyDesign.cfg")
    r = rng(run)
    run.conform("TraceFiles", comment_cases(run, {"verify", "sec", "load"}), "comments")
    enc = []
    for c in COMMENTS + [valid_payload_comment(n) for n in (42, 74, 104)] + ["w" * n for n in (4076, 4077, 4078, 5000)] + lit_comments(run):
        for ln in (0, 10, 100, CH + 1):
            enc.append({"fam": "refopen", "via": r.choice(["api", "api", "cli", "fifo"]), "len": ln, "comment": c, "segs": [7, 100]})
    for c in RAWCOMMENTS:
        enc.append({"fam": "refopen", "via": r.choice(["api", "api", "cli", "fifo"]), "len": 100, "commentb": c})
    run.conform("TraceSealed", enc, "enc")


@check("C26")
def sigformat(run):
    run.build()
    run.model("VerifyDesign", "VerifyDesign.cfg")
    r = rng(run)
    cases = []
    for ln in (0, 1, 2, 100, 1000, 20000):
        for p in ([], [97], [255, 254, 0, 10], list(range(70)), [120] * 200):
            cases.append({"fam": "written", "what": "sig", "len": ln, "pass": p, "name": r.choice(["key", "my key", "k.sec", "a.b", "\u00e9", "x\ny", "x\ry", "-S"]),
                          "over": r.choice([0, 0, 1, 200, 5000])})
        cases += [{"fam": "written", "what": "sig", "len": ln} for _ in range(20)]
        cases.append({"fam": "written", "what": "sig", "len": ln, "via": "cli"})
    for i in range(200 if run.thorough else 40):
        cases.append({"fam": "written", "what": "keys", "via": "cli" if i % 8 == 0 else "api", "name": r.choice(["key", "my key", "k.sec", "a.b", "\u00e9", "x\ny"])})
        if i % 4 == 0:
            cases.append({"fam": "written", "what": "keys", "pass": [r.randrange(256) for _ in range(r.randrange(1, 80))], "rounds": r.choice([1, 2, 3, 5])})
    cases += [{"fam": "written", "what": "keys", "pass": [112, 119]}, {"fam": "written", "what": "keys", "pass": [112], "rounds": 256},
              {"fam": "written", "what": "keys", "pass": [112], "rounds": 255}, {"fam": "written", "what": "keys", "pass": [112], "rounds": 300}]
    cases += comment_cases(run, {"verify", "sec", "load"}) if run.thorough else sample(run, comment_cases(run, {"verify", "sec", "load"}), 120)
    for op in ("sign", "open", "tobox"):
        for rd in (0, 1, 2, 42, 256, 300):
            cases.append({"fam": "sec", "op": op, "prot": rd > 0, "rounds": rd})
    for n in (1, 53, 54, 55, 16384, 16385, 16386, 40000):
        cases.append({"fam": "goldensig", "name": "g%d" % n})
    run.conform("TraceFiles", cases, "format")


# ---- secret keys over time -------------------------------------------------------

def gap(r, n):
    return [r.randrange(256) for _ in range(n)]


def stored_cases(run):
    r = rng(run, "stored")
    out = [{"fam": "genstored", "pass": [], "nil": True}, {"fam": "genstored", "pass": [112, 119], "nil": True}]
    for p in ([97], [0], [32], [10], list(b"passphrase"), list(range(256)), [120] * 72, [120] * 73, gap(r, 500), [255] * 9):
        for rd in (1, 2, 3, 42):
            out.append({"fam": "genstored", "pass": p, "rounds": rd})
    for rd in (0, 1, -1, 42, 1 << 31, 1 << 32, 1 << 33, -(1 << 31)):
        out.append({"fam": "genstored", "pass": [], "rounds": rd})
    for rd in (0, -1, -2, -42, 1 << 32, (1 << 32) + 1, (1 << 32) + 42, (1 << 33) + 1, (1 << 40) + 2, (1 << 62) + 1, -(1 << 32) + 1, -(1 << 63), (1 << 48)):
        out.append({"fam": "genstored", "pass": [112], "rounds": rd})
    out.append({"fam": "genstored", "pass": [112], "rounds": 1025})
    for n in (72, 128, 255, 256, 512, 1023, 1024, 1025, 4096, 8192, 20000):
        out.append({"fam": "genstored", "pass": [120] * n, "rounds": 1})
    for n in lit_sizes(run, 30000, 80):
        out.append({"fam": "genstored", "pass": gap(r, n), "rounds": 1})
    for n in lit_sizes(run, 3000 if run.thorough else 600, 60 if run.thorough else 25):
        out.append({"fam": "genstored", "pass": gap(r, 5), "rounds": n})
    for x in lit_strs(run):
        out.append({"fam": "genstored", "pass": list(x), "rounds": 1})
    for rd in (5, 16, 100, 127, 128, 255, 256, 257, 300) if run.thorough else (127, 128, 255, 256, 257):
        out.append({"fam": "genstored", "pass": [112], "rounds": rd})
    for _ in range(200 if run.thorough else 20):
        out.append({"fam": "genstored", "pass": gap(r, r.randrange(1, 90)), "rounds": r.randrange(1, 30)})
    return out


def patient(run):
    """Long histories in which the right passphrase comes only at the end."""
    out = []
    for cfg, n, depth, keep in (("KeyLifePatient.cfg", 8, 25, 40), ("KeyLifeLong.cfg", 2, 271, 3)):
        if run.thorough:
            n, keep = n * 5, keep * 5
        cs = [c for c in run.model("KeyLife", cfg, simulate=n, depth=depth) if c["file"]["prot"] and any(o["given"] == "right" and o["op"] == "tobox" for o in c["ops"])]
        out += sample(run, cs, keep)
    return out


def life_cases(run, n, sims, damaged=0):
    cfgs = [("KeyLifeCases.cfg", n)] + ([("KeyLifeDamaged.cfg", damaged)] if damaged else [])
    res = parallel(run.build, lambda: run.model("KeyLife", "KeyLife.cfg"),
                   lambda: run.model("KeyLife", "KeyLifeSim.cfg", simulate=sims, depth=13),
                   lambda: patient(run),
                   *[lambda c=c: run.model("KeyLife", c[0]) for c in cfgs])
    out = sample(run, res[2], 40 * sims)
    out += res[3]
    for c, got in zip(cfgs, res[4:]):
        prot = [x for x in got if x["file"]["prot"]]
        out += sample(run, prot, int(c[1] * .85)) + sample(run, [x for x in got if not x["file"]["prot"]], int(c[1] * .15))
    return out


def near(p):
    """Passphrases that some program might take for p."""
    import base64 as b64, hashlib, unicodedata, urllib.parse
    out = [p.lower(), p.upper(), p.title(), p.capitalize(), p.swapcase(), p[:1].swapcase() + p[1:], p[:-1] + p[-1:].swapcase(),
           p[::-1], p.strip(), p.lstrip(), p.rstrip(), b" ".join(p.split()), b"".join(p.split()), p + p, p[1:] + p[:1], p[-1:] + p[:-1],
           p.split(b"\0")[0], p.split(b"\n")[0], p.split(b" ")[0], p.split(b" ")[-1], p.replace(b"\0", b""), p.replace(b"\0", b" "),
           p.hex().encode(), b64.b64encode(p), hashlib.sha512(p).digest(), hashlib.sha256(p).digest(), hashlib.sha512(p).hexdigest().encode(),
           hashlib.md5(p).digest(), hashlib.sha1(p).digest(), urllib.parse.quote_from_bytes(p).encode(), urllib.parse.unquote_to_bytes(p),
           b"\xef\xbb\xbf" + p, b'"' + p + b'"', b"'" + p + b"'", p.strip(b"\"'"), b"\0" + p, b" " + p, b"\n" + p,
           bytes(c & 127 for c in p), bytes(c ^ 32 for c in p), bytes(c ^ 128 for c in p), bytes(c ^ 255 for c in p),
           p.decode("latin1").encode(), p.decode("utf-8", "replace").encode(), p.decode("utf-8", "ignore").encode(),
           p.decode("latin1").encode("utf-16-le"), p.decode("latin1").encode("utf-16"), bytes(len(p)), p[:1] * len(p), b"*" * len(p),
           p.translate(bytes.maketrans(b"0oO1lI5sS", b"oOolI1sSs")), p.translate(bytes.maketrans(b"yzYZ", b"zyZY")), b"".join(sorted(p[i:i + 1] for i in range(len(p)))),
           p + p[:1], p + p[-1:], p[:1] + p, p.replace(b"\n", b"\r\n"), p.replace(b"\r\n", b"\n"), p.replace(b"\\", b""), p.expandtabs()]
    for f in ("NFC", "NFD", "NFKC", "NFKD"):
        out.append(unicodedata.normalize(f, p.decode("utf-8", "replace")).encode())
    out += [p + bytes([c]) for c in (0, 8, 9, 10, 13, 26, 27, 32, 46, 127, 255)] + [p + b"\r\n", p + b"\0\0", p + b"\n\n"]
    out += [p.ljust(n, b"\0") for n in (8, 16, 32, 56, 64, 72, 128, 256, 1024) if len(p) < n]
    out += [p.ljust((len(p) // n + 1) * n, bytes([n - len(p) % n])) for n in (8, 16)]
    out += [p[:n] for n in (1, 4, 8, 16, 20, 32, 55, 56, 63, 64, 71, 72, 73, 127, 128, 255, 256, 1023, 1024, 4096) if len(p) > n]
    out += [p[-n:] for n in (8, 16, 32, 64, 72, 128) if len(p) > n]
    out += [p[:i] + p[i + 1:i + 2] + p[i:i + 1] + p[i + 2:] for i in {0, len(p) // 2 - 1, len(p) - 2} if 0 <= i]
    out += [p[:i] + p[i + 1:] for i in {0, len(p) // 2, len(p) - 1}]
    out += [p[:i] + bytes([p[i] ^ b]) + p[i + 1:] for i in {0, len(p) // 2, len(p) - 1} for b in (1, 4, 32, 128)]
    return [list(x) for x in sorted({x for x in out if len(x) < 9000})]


PASS = [b"Passphrase", b"Correct Horse Battery", b"correct horse", b"p\xc3\xa4ssw\xc3\xb6rd \xef\xac\x81", b"a\0b", b"0123456789", b"  x\ty ",
        b"\xff\xfe\x80", b"ALL CAPS", b"%41%42", b"x" * 72 + b"tail", b"QUJD", b"616263", b"'q'", b"line\n", b"\0"]


def near_cases(run):
    """Keys and all of the passphrases near the right one, each with a key in
    memory and with a file."""
    r = rng(run, "near")
    out = []
    ps = list(PASS) + [bytes(gap(r, r.randrange(1, 40))) for _ in range(40 if run.thorough else 6)]
    for p in ps:
        ws = near(p)
        for i in range(0, len(ws), 12):
            ops = [{"h": "h1", "op": "tobox", "given": "bytes", "bytes": w} for w in ws[i:i + 12]]
            ops += [{"h": "file", "op": "sign" if r.random() < .5 else "open", "given": "bytes", "bytes": w} for w in (ws[i:i + 12] if run.thorough else r.sample(ws[i:i + 12], len(ws[i:i + 12]) // 2))]
            ops += [{"h": "h1", "op": "tobox", "given": "right"}, {"h": "h1", "op": "isenc", "given": ""}]
            out.append({"fam": "keylife", "file": {"prot": True, "damage": "none", "src": "file"}, "ops": ops, "rounds": 1, "pass": list(p)})
    return out


@check("C05")
def passphrase(run):
    cases = life_cases(run, 6000 if run.thorough else 1200, 50 if run.thorough else 3)
    # Numbers of rounds that don't fit into a byte, or just do.
    o = lambda h, what, given: {"h": h, "op": what, "given": given}
    for rd in (255, 256, 257, 300) if not run.thorough else (15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 300, 511, 512, 513, 1025, 2049):
        for src in ("file", "generated"):
            for ops in ([o("h1", "tobox", "right"), o("h1", "check", "right")], [o("h2", "isenc", "right"), o("file", "sign", "right")]):
                if run.thorough or rd != 300:
                    cases.append({"fam": "keylife", "file": {"prot": True, "damage": "none", "src": src}, "ops": ops, "rounds": rd, "pass": [112, 119]})
    run.conform("TraceKeys", stored_cases(run), "stored")
    run.conform("TraceKeys", cases, "life")
    run.conform("TraceKeys", near_cases(run), "near")


@check("C06")
def unlocking(run):
    cases = life_cases(run, 12000 if run.thorough else 1500, 100 if run.thorough else 8)
    run.conform("TraceKeys", cases, "life")


@check("C23")
def prompting(run):
    r = rng(run, "conc")
    cases = life_cases(run, 6000 if run.thorough else 1200, 50 if run.thorough else 3, 600)
    for prot in (False, True):
        for op in ("sign", "open"):
            for why in ("missing", "dir", "garbage", "tag", "chunk", "short", "foreign", "outdir", "nodir"):
                if op == "sign" and why in ("garbage", "tag", "chunk", "short", "foreign"):
                    continue
                for _ in range(5):
                    cases.append({"fam": "failuse", "prot": prot, "op": op, "why": why})
    run.conform("TraceKeys", cases, "life")
    # Several operations at the same time.
    n = 6 if run.thorough else 1
    cases = [{"fam": "conc", "kinds": c["kinds"], "sched": c["sched"], "gates": r.choice([0, 0, 1, 2, 4, 5, 6, 7])}
             for c in run.model("Concurrent", "ConcurrentSim.cfg", simulate=200 * n, depth=40)]
    cases += [{"fam": "conc", "kinds": [r.choice("SSDDTTVEG") for _ in range(12)], "times": 4, "keys": r.choice([2, 2, 3, 8])} for _ in range(20 * n)]
    cases += [{"fam": "conc", "kinds": [k] * 12, "times": 4, "keys": m} for k in "SDT" for m in (2, 8)]
    run.conform("TraceConcurrent", cases, "concurrent", cfg="TraceConcurrent.cfg")


# ---- the system as a whole ----------------------------------------------------------

def cheap(run, cases, keep=.15):
    """Fewer keys made by the command with a passphrase: those take the default
    number of KDF rounds at every use."""
    r = rng(run, "cheap")
    for c in cases:
        for o in c["ops"]:
            if o["mode"] == "G" and o["via"] == "cli" and len(o["given"]) == 2 and o["given"][0] == o["given"][1] and r.random() > keep:
                o["via"], o["given"] = "api", o["given"][:1]
                o["p"] = o["p"] or "a"
            if o["mode"] == "G" and o["via"] == "api":
                o["p"] = o["p"] or "a"
            o["form"] = r.choice(["", "", "eq", "long"])
    return cases


def histories(run, n):
    """Histories from the simulation of the system model, one per prefix."""
    cases = run.model("PsignifyMC", "PsignifySim.cfg", simulate=n, depth=15)
    by = {}
    for c in cases:
        by.setdefault(__import__("json").dumps(c["ops"][:-1]), []).append(c)
    r = rng(run, "hist")
    return cheap(run, [r.choice(v) for v in by.values()])


@check("C28")
def secrets(run):
    def bad():
        for cfg in ("Terminal-confirm.cfg", "Terminal-leaves.cfg", "Terminal-tells.cfg"):
            rc, out = run.tlc("Terminal.tla", cfg, workers=1)
            if rc == 0 or "is violated" not in out:
                raise CheckError("%s should be refuted" % cfg)
    res = parallel(run.build, lambda: run.model("Terminal", "Terminal.cfg"), bad)
    r = rng(run, "secrets")
    cases = []
    damages = ["algo", "kdf", "salt", "checksum", "number", "seed", "public", "short", "long", "garbled"]
    for c in res[1] * (12 if run.thorough else 2):
        c = dict(c, prot=c["mode"] in "GSD", tty=r.random() < .5)
        if r.random() < .25:
            c["pass"] = [ord(x) for x in r.choice(["correct horse", "p@ss%dword%s", "x" * 200, "tr\"icky'\\n", "      spaces", "%!s(MISSING)", "-p -s -m", "p\u00e4ssword".encode().decode("latin1")])]
        cases.append(c)
        if c["mode"] in "SD" and r.random() < (1 if run.thorough else .5):
            cases.append(dict(c, nom=True))
    for mode in "GSDVE":
        for was in (True, False):
            for tty in (True, False):
                cases.append({"mode": mode, "lines": [], "was": was, "prot": False, "tty": tty})
                cases.append({"mode": mode, "lines": [], "was": was, "prot": False, "tty": tty, "nom": mode != "G"})
    for mode in "SD":
        for d in damages:
            for prot in (True, False):
                for tty in (True, False):
                    cases.append({"mode": mode, "lines": [r.choice(["right", "right", "wrong"])] if prot else [], "was": True, "prot": prot, "tty": tty, "damage": d})
    # What is to be written can't be written, or what is to be read is of another kind.
    for mode, blocks in (("G", ["sec", "pub", "secdir", "pubdir", "nodir", "readonly"]), ("S", ["outdir", "mdir", "readonly", "both"]), ("D", ["outdir", "nodir", "readonly", "cut", "other", "flip"])):
        for b in blocks:
            for lines in ([["right", "right"], ["right", "wrong"]] if mode == "G" else [["right"], ["wrong"]]) + [[]]:
                for tty in (True, False):
                    cases.append({"mode": mode, "lines": lines, "was": True, "prot": bool(lines), "tty": tty, "block": b})
    for c in cases:
        c["fam"] = "terminal"
    run.conform("TraceTerminal", cases, "terminal")


@check("C27")
def history(run):
    res = parallel(run.build, lambda: run.model("PsignifyMC", "Psignify.cfg"), lambda: histories(run, 1500 if run.thorough else 200))
    r = rng(run, "frozen")
    for c in res[2]:
        c["frozen"] = r.random() < .5
        for o in c["ops"]:
            if o["mode"] == "G" and o["via"] == "api" and (o["n"] or not o["given"]):
                o["nil"] = r.random() < .5
    # Keys with and without passphrases and options, made in one process; the
    # default options are slow to use.
    more = []
    for i in range(100 if run.thorough else 16):
        ops = []
        for j in range(r.randrange(2, 6)):
            prot = r.random() < .4
            ops.append(op("G", "api", p="a%d" % j, n=not prot, given=["p"] if prot else [], nil=not prot and r.random() < .6))
            if r.random() < .3:
                ops.append(op("G", "api", p="a%d" % r.randrange(j + 1), n=not prot, given=["p"] if prot else [], nil=not prot))
        ops += [op("G", "api", p="b", n=True, nil=i % 2 == 0), op("G", "api", p="z", given=["q"], nil=i % 2 == 0), op("S", "api", s="z.sec", m="m", given=["q"]), op("V", "api", p="z.pub", m="m"),
                op("S", "api", s="b.sec", m="m"), op("V", "api", p="b.pub", m="m"), op("V", "api", p="z.pub", m="m")]
        more.append({"fam": "history", "pre": 0, "ops": ops})
    for i in range(12 if run.thorough else 4):
        # The same relative names, in other places.
        ds, ops = ["", "d1", "d2", "d1/d3", "d1"], [env("mkdir", "d1"), env("mkdir", "d2"), env("mkdir", "d1/d3")]
        if i % 2:
            r.shuffle(ds)
        for d in ds:
            p = d + "/" if d else ""
            prot = r.random() < .3
            g = ["p"] if prot else []
            ops += [env("write", p + "m", size=r.choice([3, 50, 17000])), env("cd", d), op("G", "api", p=p + "k", n=not prot, given=g), op("S", "api", s=p + "k.sec", m=p + "m", given=g), op("V", "api", p=p + "k.pub", m=p + "m"),
                    op("E", "api", p=p + "k.pub", m=p + "m"), op("D", "api", s=p + "k.sec", c=p + "m.enc", m=p + "o", given=g), op("V", "api", p="k.pub", m=p + "m"), op("D", "api", s="k.sec", c="m.enc", m=p + "o2", given=g)]
        more.append({"fam": "history", "pre": 0, "ops": ops})
        # The default options after other options, and the other way round.
        ops = [op("G", "cli", p="f", given=["p", "p"])] + [op("G", "api", p="a%d" % j, n=x == 2, given=[] if x == 2 else ["p"], nil=x != 1) for j, x in enumerate([1, 0, 2, 1, 0, 1][i % 3:])]
        more.append({"fam": "history", "pre": 0, "ops": ops})
    run.conform("TracePsignify", res[2] + more + long_histories(run) + again(run, 1000 if run.thorough else 120), "histories")


def long_histories(run):
    """Hundreds of operations in one process, that can open few files."""
    r = rng(run, "long")
    pre = [env("write", "m", size=-1), env("write", "m", size=100), env("write", "n", size=20000), op("G", "api", p="k", given=["p"]), op("G", "api", p="b", n=True),
           op("S", "api", s="k.sec", m="m", given=["p"]), op("S", "api", s="b.sec", m="n"), op("E", "api", p="k.pub", m="m"), op("E", "api", p="b.pub", m="n"),
           env("copy", "d.enc", "m.enc"), env("damage", "d.enc"), env("copy", "d.sec", "k.sec"), env("damage", "d.sec"), env("mkdir", "dir")]
    good = {"S": [("S", dict(s="k.sec", m="m", x="x", given=["p"])), ("S", dict(s="b.sec", m="n", x="y"))],
            "V": [("V", dict(p="k.pub", m="m")), ("V", dict(p="b.pub", m="n"))],
            "E": [("E", dict(p="k.pub", m="m", c="c")), ("E", dict(p="b.pub", m="n", c="e"))],
            "D": [("D", dict(s="k.sec", c="m.enc", m="o", given=["p"])), ("D", dict(s="b.sec", c="n.enc", m="o"))]}
    bad = {"S": [("S", dict(s="k.sec", m="m", x="x", given=["q"])), ("S", dict(s="d.sec", m="n", x="x", given=["p"])), ("S", dict(s="b.sec", m="dir", x="x")), ("S", dict(s="b.sec", m="m", x="dir"))],
           "V": [("V", dict(p="b.pub", m="m")), ("V", dict(p="b.pub", m="dir", x="m.sig")), ("V", dict(p="b.sec", m="m")), ("V", dict(p="k.pub", m="n", x="m.sig"))],
           "E": [("E", dict(p="k.pub", m="dir", c="c")), ("E", dict(p="k.sec", m="m", c="c")), ("E", dict(p="k.pub", m="no", c="c")), ("E", dict(p="k.pub", m="m", c="dir"))],
           "D": [("D", dict(s="k.sec", c="m.enc", m="o", given=["q"])), ("D", dict(s="b.sec", c="m.enc", m="o")), ("D", dict(s="k.sec", c="d.enc", m="o", given=["p"])), ("D", dict(s="b.sec", c="n.enc", m="dir")),
                 ("D", dict(s="k.sec", c="m.enc", m="o", given=["error"])), ("D", dict(s="b.sec", c="dir", m="o"))],
           "G": [("G", dict(p="b", n=True)), ("G", dict(p="dir/no/k", n=True))]}
    mk = lambda o: op(o[0], "api", **o[1])
    every = [o for x in list(good.values()) + list(bad.values()) for o in x]
    cases = []
    for g in good.values():
        cases.append([r.choice(g[-1:]) for _ in range(270)] + [g[0]] + g)
    for b in bad.values():
        for o in b if run.thorough else r.sample(b, 2):
            cases.append([o] * (70 if o[0] in "SD" and o[1].get("given") else 130) + [x for g in good.values() for x in g])
    for _ in range(20 if run.thorough else 4):
        cases.append([r.choice(every) for _ in range(300)] + [x for g in good.values() for x in g])
    cases.append([("G", dict(p="z%d" % i, n=True)) for i in range(150)] + [x for g in good.values() for x in g])
    return [{"fam": "history", "few": 40, "pre": len(pre), "ops": [dict(o) for o in pre] + [mk(o) for o in c]} for c in cases]


def op(mode="", via="cli", **k):
    o = {"via": via, "mode": mode, "s": "", "p": "", "m": "", "x": "", "c": "", "n": False, "given": [], "odd": "",
         "base": "a", "env": "", "src": "", "dst": "", "form": ""}
    o.update(k)
    return o


def env(e, dst, src="", **k):
    return op(via="api", env=e, dst=dst, src=src, **k)


def variant_setup(v):
    """The operations that lead to a state of the files named in PsignifyCli."""
    pa, pb = (["p"], ["q"]) if v == "prot" else ([], [])
    pre = [env("write", "n", size=77)]
    if v == "fresh":
        return pre
    keep = v != "nokey"
    g = lambda b, p: op("G", "api", p=b, n=not p, given=p)
    pre += [g("a", pa), g("b", pb)]
    if v == "onlykeys":
        return pre
    k1, k2 = {"crossed": (("b", pb), ("a", pa)), "nokey": (("b", pb), ("b", pb))}.get(v, (("a", pa), ("b", pb)))
    pre += [op("S", "api", s=k1[0] + ".sec", m="m", given=k1[1]), op("S", "api", s=k2[0] + ".sec", m="m", x="x", given=k2[1]),
            op("E", "api", p=k1[0] + ".pub", m="m"), op("E", "api", p=k2[0] + ".pub", m="n", c="c")]
    if not keep:
        pre += [env("delete", "a.sec"), env("delete", "a.pub")]
    return pre


USERS = ["Tester", "root", "a.b", "x.sec", "x.pub", "first last", "\u00fcser", "-S", "u", "user@example.org", "DOMAIN\\\\user", "12345", "%s"]
FORMS_CLI = ["", "", "eq", "long"]
MSGNAMES = ["m", "m", "m", "x.sig", "x.enc", "x.pub", "m.sig", ".sig", "sig", "x.SIG", "x.", "x.sig.enc", "m.tar.gz", "my msg", "m.sig.txt", "a.m.enc", "\u00fc\u0301", "sub/m", "-S", "m.sec", "m\nx",
            "M" * 240, "d" * 200 + "/" + "m" * 200]


def rename(case, new):
    """Another name for the message (and what is named after it)."""
    for o in case["ops"]:
        for f in ("m", "x", "c", "src", "dst"):
            v = o[f]
            if v == "m" or v.startswith("m."):
                o[f] = new + v[1:]
    if "/" in new:
        case["ops"] = [env("mkdir", new.split("/")[0])] + case["ops"]
        case["pre"] += 1
    case["ops"] = [env("write", new, size=41)] + case["ops"] if "/" not in new else [case["ops"][0], env("write", new, size=41)] + case["ops"][1:]
    case["pre"] += 1


def command_lines(run, full=False):
    cases = run.model("PsignifyCli", "PsignifyCliFull.cfg" if full else "PsignifyCli.cfg")
    r = rng(run, "cli")
    out = []
    for c in cases:
        pre = variant_setup(c.pop("variant"))
        c["pre"] = len(pre)
        c["ops"] = pre + c["ops"]
        for o in c["ops"]:
            o["form"] = r.choice(FORMS_CLI)
        if r.random() < .25:
            # The names of the defaults, given explicitly.
            for f, v, to in (("x", "x", "m.sig"), ("c", "c", "m.enc"), ("s", "b.sec", "a.sec"), ("p", "b.pub", "a.pub")):
                if o[f] == v and r.random() < .8:
                    o[f] = to
        name = r.choice(MSGNAMES)
        if name != "m":
            rename(c, name)
        if c["ops"][-1]["mode"] in ("S", "V", "E", "D") and r.random() < .3:
            c["ops"][-1]["n"] = True  # which has no meaning there
        out.append(c)
    return out


def is_slow(c):
    o = c["ops"][-1]
    return o["mode"] == "G" and len(o["given"]) == 2 and o["given"][0] == o["given"][1]


def odd_flags(c):
    o = c["ops"][-1]
    used = {"G": "p", "S": "smx", "V": "pmx", "E": "pmc", "D": "smc"}.get(o["mode"], "")
    odd = [f for f in "spmxc" if o[f] and f not in used]
    return odd and not all(o[f] for f in "spmxc")


@check("C21")
def defaults(run):
    res = parallel(run.build, lambda: command_lines(run, True), lambda: run.model("PsignifyMC", "Psignify.cfg"))
    cases = res[1]
    r = rng(run, "nodir")
    if not run.thorough:
        slow = [c for c in cases if is_slow(c)]
        quick = [c for c in cases if not is_slow(c)]
        usual = [c for c in quick if not odd_flags(c)]
        # Flags that have no meaning for an operation have no influence.
        cases = usual + sample(run, [c for c in quick if odd_flags(c)], 300) + sample(run, slow, 8)
    for c in sample(run, [c for c in cases if c["ops"][-1]["mode"] not in ("", "G")], 1000 if run.thorough else 90) + sample(run, [c for c in broken_inputs(run) if c["ops"][-1]["mode"] != "G"], 200 if run.thorough else 60):
        c = json.loads(json.dumps(c))
        if c["pre"] and r.random() < .5 and not any(v in ("b", "b.sec", "b.pub") for o in c["ops"] for v in o.values() if isinstance(v, str)):
            # Not the default key pair.
            for o in c["ops"]:
                o.update((f, "b" + o[f][1:]) for f in ("s", "p", "src", "dst") if o[f] == "a" or o[f].startswith("a."))
        c["ops"][-1]["decoys"] = True
        if r.random() < .7:
            # Files with the names of the keys in ~/.signify.
            c["ops"][-1:-1] = [op("G", "api", p="z", n=True), op("S", "api", s="z.sec", m="m", x="z.sig")]
            c["pre"] += 2
        cases.append(c)
    cases += lost_inputs(run, r, "SVED", 60 if run.thorough else 12)
    cases += clashes(run, r)
    cases += linked(run, r, "SVED", 100 if run.thorough else 30)
    cases += odd_names(run, r, "SVED", 1000)
    # There is a file in the place of the directory of the default key pair.
    for mode, flags in (("G", dict(n=True)), ("G", dict(given=["p", "p"])), ("S", dict(m="m")), ("V", dict(m="m")), ("E", dict(m="m")), ("D", dict(c="c", m="o")), ("S", dict(m="m", s="a.sec")), ("V", dict(m="m", p="a.pub"))):
        for what in ("file", "none", "link"):
            pre = [op("G", "api", p="a", n=True), op("S", "api", s="a.sec", m="m"), op("E", "api", p="a.pub", m="m", c="c"), env("copy", "tester.sec", "a.sec"), env("copy", "tester.pub", "a.pub")]
            pre += {"file": [env("write", ".signify", size=10)], "none": [], "link": [env("symlink", ".signify", "nowhere")]}[what]
            if mode == "G":
                pre = [o for o in pre if "tester" not in o["dst"]]
            cases.append({"fam": "history", "nodir": True, "pre": len(pre), "ops": pre + [op(mode, **flags)]})
    # The environment, but for the home directory, has no influence.
    names = sorted(set(x.decode() for x in lit_strs(run, 200, 40) if re.fullmatch(b"[A-Z][A-Z0-9_]{2,}", x)) - {"HOME", "USER", "PATH", "LOGNAME", "TMPDIR", "GODEBUG"})
    for c in sample(run, cases, 60) if names else []:
        c["vars"] = ["%s=%s" % (v, r.choice(["1", "b.sec", "b.pub", "b", "0", "x", "."])) for v in names]
    # The directory of the default key pair does not exist yet.
    for n, given in ((True, []), (False, ["p", "q"])):
        cases.append({"fam": "history", "nodir": True, "pre": 0, "ops": [op("G", n=n, given=given), op("S", m="m", given=[])]})
    # Chains in which everything has its default name.
    ends = [x.decode() for x in lit_strs(run, 80, 60) if x.isascii() and b"/" not in x and b"\0" not in x]
    ends = [r.choice([t, "m" + t, "m" + t, "m" + t, t + "m"]) for t in ends if t not in (".", "..")]
    for new in sorted(set(MSGNAMES)) * (3 if run.thorough else 1) + ends:
        form = r.choice(FORMS_CLI)
        ops = [op("G", n=True), op("S", m="m"), op("V", m="m"), op("E", m="m"), env("delete", "n"), op("D", c="m.enc", m="n"),
               op("G", p="b", n=True), op("S", s="b.sec", m="m"), op("V", m="m"), op("V", p="b.pub", m="m"), op("S", m="m"), op("V", m="m"),
               op("G", n=True), op("G", p="b", n=True), op("G", p="b.sec", n=True), op("V", p="b.sec.pub", m="m"), op("G", p="a.pub", n=True),
               env("mkdir", "sub"), op("G", p="sub/b", n=True), op("G", p="sub/d", n=True), op("S", s="sub/d.sec", m="m"), op("V", p="sub/d.pub", m="m"), op("G", p="sub.d/b", n=True),
               op("G", p=".d", n=True), op("E", p=".d.pub", m="m"), op("D", s=".d.sec", c="m.enc", m="n"), op("G", p="d d.", n=True), op("G", p="d.", n=True), op("G", p="-d", n=True)]
        for o in ops:
            o["form"] = form
        c = {"fam": "history", "pre": 0, "ops": ops}
        if new != "m":
            rename(c, new)
        cases.append(c)
    # Whatever else generation would create is there already.
    for o in probes("G"):
        for via in ("api", "cli"):
            for prot in (False, True):
                cases.append(probe_case(o, via, 10, prot, r))
    # The user and the home directory.
    for c in cases:
        if r.random() < .5:
            c["user"] = r.choice(USERS)
        if r.random() < .5:
            c["home"] = r.choice(["home", "my home", "home/x.sec", "h\u00f6me", "Home", "-h", "home/", "home//", "./home"])
    # The user database and the environment differ in these.
    for uid in (54321, 65534):
        for user, log in (("tester", "other"), ("", "other"), ("tester", ""), ("other", "nobody"), ("nobody", "tester")):
            for keys in ("", "tester", "other", "nobody"):
                for unset in (False, True):
                    cases.append({"fam": "homes", "uid": uid, "user": user, "logname": log, "keys": keys, "unset": unset})
    run.conform("TracePsignify", cases, "commands")


BAD = ["missing", "dir", "garbage", "empty", "truncated", "otherkind", "nodir/", "n/", "m/", "no/dir/"]


def broken_inputs(run, via=("cli",), extra=()):
    """Every operation with each of its files missing, unreadable, damaged or of another kind."""
    r = rng(run, "broken")
    out = []
    roles = {"S": ["a.sec", "m", ">x"], "V": ["a.pub", "m", "x"], "E": ["a.pub", "m", ">c"], "D": ["a.sec", "c", ">o"], "G": [">b.sec", ">b.pub"]}
    full = {"S": dict(s="a.sec", m="m", x="x"), "V": dict(p="a.pub", m="m", x="x"), "E": dict(p="a.pub", m="m", c="c"),
            "D": dict(s="a.sec", c="c", m="o"), "G": dict(p="b", n=True)}
    for mode, rs in roles.items():
        for role in rs:
            for bad in BAD:
                for v in via:
                    for prot in (False, True):
                        if mode in ("V", "E", "G") and prot:
                            continue
                        pw = ["p"] if prot else []
                        pre = [env("write", "n", size=77), op("G", "api", p="a", n=not prot, given=pw),
                               op("S", "api", s="a.sec", m="m", x="x", given=pw), op("E", "api", p="a.pub", m="m", c="c")]
                        if r.random() < .5:
                            pre.append(env("write", "o", size=r.choice([0, 3, 900, 30000])))
                        if r.random() < .5 and mode == "S":
                            pre.append(env("write", "x", size=r.choice([-1, 3, 900])))
                        o = op(mode, v, given=pw, **full[mode])
                        if mode != "G" and v == "cli" and r.random() < .3:
                            o["n"] = True
                        if mode == "V" and role != "x" and r.random() < .5:
                            # The signature has its default name.
                            o["x"] = ""
                            pre.append(env("copy", "m.sig", "x"))
                        q = role.lstrip(">")
                        if bad == "missing":
                            pre.append(env("delete", q))
                        elif bad == "dir":
                            pre.append(env("mkdir", q))
                        elif bad == "garbage":
                            pre.append(env("write", q, size=r.choice([1, 50, 104, 500])))
                        elif bad == "empty":
                            pre += [env("delete", q), env("write", q, size=-1)]
                        elif bad == "truncated":
                            pre.append(env("damage", q))
                        elif bad == "otherkind":
                            src = {"a.sec": "a.pub", "a.pub": "a.sec"}.get(q, "a.sec" if q in ("x", "c") else "")
                            if not src:
                                continue
                            pre.append(env("copy", q, src))
                        elif bad[-1] == "/":
                            for f, val in o.items():
                                if val == q or (mode == "G" and f == "p"):
                                    o[f] = bad + val
                        if bad[-1] == "/" and (role == ">b.pub" or (role[0] != ">" and bad != BAD[-2 - len(out) % 3])):
                            continue
                        for b in extra:
                            pre.append(env("write", b, size=r.choice([0, 10, 2000])))
                        out.append({"fam": "history", "pre": len(pre), "ops": pre + [o]})
    return out


@check("C20")
def exit_status(run):
    res = parallel(run.build, lambda: command_lines(run), lambda: run.model("PsignifyMC", "Psignify.cfg"), lambda: histories(run, 300 if run.thorough else 20))
    r = rng(run, "odd")
    lines = res[1]
    if not run.thorough:
        lines = sample(run, [c for c in lines if not is_slow(c)], 250) + sample(run, [c for c in lines if is_slow(c)], 6)
    for c in res[3]:
        for o in c["ops"]:
            if not o["env"] and not (o["mode"] == "G" and o["given"]):
                o["via"] = "cli"
    cases = lines + broken_inputs(run) + res[3]
    full = {"G": ["-G", "-n", "-p", "b"], "S": ["-S", "-s", "a.sec", "-m", "m", "-x", "x"], "V": ["-V", "-p", "a.pub", "-m", "m", "-x", "x"],
            "E": ["-E", "-p", "a.pub", "-m", "m", "-c", "c"], "D": ["-D", "-s", "a.sec", "-c", "c", "-m", "o"], "": []}
    pre = [env("write", "n", size=77), op("G", "api", p="a", n=True), env("copy", "a.sec", ".signify/tester.sec"), env("copy", "a.pub", ".signify/tester.pub"),
           op("S", "api", s="a.sec", m="m", x="x"), op("E", "api", p="a.pub", m="m", c="c"), op("S", "api", s="a.sec", m="m"), op("E", "api", p="a.pub", m="m")]

    def odd(args, why, mode):
        args = [".signify/tester" + a[1:] if a in ("a.sec", "a.pub") else a for a in args]
        cases.append({"fam": "history", "pre": len(pre), "ops": [dict(o) for o in pre] + [op(mode, odd=why, args=args)]})
    for mode, args in full.items():
        for a, why in ((["-z"], "unknown"), (["--unknown"], "unknown"), (["-sec", "a.sec"], "unknown"), (["-s"], "novalue"), (["-m"], "novalue"),
                       (["-c"], "novalue"), (["-n=maybe"], "value"), (["-S=perhaps"], "value"), (["-V=2"], "value"), (["-=x"], "syntax"), (["---m"], "syntax"), (["-zm", "x"], "unknown"),
                       (["-h"], "help"), (["-help"], "help"), (["--help"], "help")):
            odd(args + a, why, mode)
            if a[0] not in ("-s", "-m", "-c"):
                odd(a + args, why, mode)
            if len(args) > 1 and a[0] not in ("-s", "-m", "-c") and run.thorough:
                odd(args[:1] + a + args[1:], why, mode)
    # Confirmations that are almost the same.
    words = ["word", "words", "wor", "Word", "word ", " word", "w", "drow", "wOrd", "xord", "wore", ""]
    for w in words[1:]:
        for a, b in (("word", w), (w, "word")):
            for base in ("", "b") if run.thorough else (r.choice(["", "b"]),):
                cases.append({"fam": "history", "pre": 0, "pass": {"A": list(a.encode()), "B": list(b.encode())}, "ops": [op("G", p=base, given=["A", "B"])]})
    cases.append({"fam": "history", "pre": 0, "pass": {"A": list(b"word"), "B": list(b"word ")},
                  "ops": [op("G", given=["A", "A"]), op("S", m="m", given=["B"]), op("S", m="m", given=["A"]), op("V", m="m")]})
    for args in ([], ["-m", "m"], ["-n"], ["-s", "a.sec", "-m", "m"], ["-S=false", "-s", "a.sec", "-m", "m"], ["-V=false"], ["m"], ["a.sec", "m"], ["-"], ["--"], ["--", "-S"],
                 ["sign"], ["-p", "a.pub", "-m", "m", "-x", "x"], ["-c", "c"], ["-G=false", "-p", "b", "-n"], ["-D=0"], ["-E=F"]):
        odd(args, "nomode", "")
    run.conform("TracePsignify", cases, "commands")


def probes(modes):
    return [m + v for m in modes for v in {"S": ["", "x", "dir"], "V": ["", "wrong"], "E": ["", "c", "dir"], "D": ["", "damaged", "wrong"], "G": ["", "base", "taken"]}[m]]


def probe_case(kind, via, size, prot, r):
    mode, var = kind[0], kind[1:]
    g = ["p"] if prot else []
    pre = [env("mkdir", "sub"), env("write", "m", size=size), op("G", "api", p="k", n=not prot, given=g), op("G", "api", p="b", n=True),
           op("S", "api", s="k.sec", m="m", x="x", given=g), op("S", "api", s="k.sec", m="m", given=g), op("E", "api", p="k.pub", m="m", c="c")]
    d = {"": "", "x": "y", "c": "d", "dir": "sub/y"}.get(var, "")
    if mode == "S":
        o = op("S", via, s="k.sec", m="m", x=d, given=g)
    elif mode == "V":
        o = op("V", via, p=("b" if var else "k") + ".pub", m="m", x=r.choice(["", "x"]))
    elif mode == "E":
        o = op("E", via, p="k.pub", m="m", c=d)
    elif mode == "D":
        o = op("D", via, s="b.sec" if var == "wrong" else "k.sec", c="c", m=r.choice(["o", "sub/o"]), given=[] if var == "wrong" else g)
        if var == "damaged":
            pre.append(env("damage", "c"))
    else:
        o = op("G", via, p=r.choice(["new", "sub/new"]) if var else ("" if via == "cli" else "new"), n=not prot, given=g * (2 if via == "cli" else 1))
        if var == "taken":
            pre.append(env("write", o["p"] + r.choice([".sec", ".pub"]), size=10))
    if r.random() < .5 and mode in "SED":
        pre.append(env("write", {"S": d or "m.sig", "E": d or "m.enc", "D": o["m"]}[mode], size=r.choice([-1, 10, 100000])))
    o["probe"] = True
    return {"fam": "history", "pre": len(pre), "ops": pre + [o]}


@check("C22")
def only_outputs(run):
    by = ["m.tmp", "m~", "m.bak", "m.sig.tmp", "m.enc.tmp", "m.new", "x.tmp", "x.bak", "x~", "c.tmp", "c~", "o.tmp", "o.bak", "o~", "m.sig", "m.enc", ".x.swp", "a.sec.bak", "tmp", "c.partial", "o.partial"]
    res = parallel(run.build, lambda: command_lines(run), lambda: run.model("PsignifyMC", "Psignify.cfg"), lambda: histories(run, 500 if run.thorough else 30))
    cases = [c for c in res[1] if c["ops"][-1]["mode"] != "G"]
    if not run.thorough:
        cases = sample(run, cases, 200)
    cases += broken_inputs(run, ("api", "cli") if run.thorough else ("api",), by)
    r = rng(run, "more")
    # Failures late in an operation: wrong passphrase, wrong key, damage deep inside.
    for i in range(400 if run.thorough else 80):
        prot = r.random() < .5
        pw = ["p"] if prot else []
        pre = [env("write", "m", size=r.choice([0, 1, 100, CH, CH + 1, 3 * CH + 5])), op("G", "api", p="a", n=not prot, given=pw), op("G", "api", p="b", n=True),
               op("S", "api", s="a.sec", m="m", x="x", given=pw), op("E", "api", p="a.pub", m="m", c="c"), env("write", "o", size=r.choice([-1, 5, 70000])),
               op("S", "api", s="a.sec", m="m", given=pw)]
        if r.random() < .5:
            # What a failing signature operation finds.
            q = r.choice(["x", "m.sig"])
            pre += r.choice([[env("delete", q), env("write", q, size=-1)], [env("write", q, size=r.choice([1, 30, 98, 150]))], [env("damage", q)], [op("S", "api", s="b.sec", m="m", x=q)], [env("delete", q)]])
        pre += [env("write", b, size=r.choice([-1, 10, 2000])) for b in by if b != "m.sig"]
        w = r.choice([[], ["q"], ["error"], ["r"]]) if prot else []
        via = "api"
        last = r.choice([op("S", via, s="a.sec", m="m", x=r.choice(["x", ""]), given=w or pw), op("S", via, s="a.sec", m="nothing", x="x", given=pw),
                         op("D", via, s="a.sec", c="c", m="o", given=w or pw), op("D", via, s="b.sec", c="c", m="o"), op("V", via, p="b.pub", m="m", x="x"),
                         op("V", via, p="a.pub", m="m", x="x"), op("E", via, p="a.pub", m="m", c="c"), op("V", via, p="a.pub", m="o", x="m.sig")])
        if last["mode"] in ("D", "V") and r.random() < .6:
            pre.append(env("damage", last["c"] or last["x"]))
        cases.append({"fam": "history", "pre": len(pre), "ops": pre + [last, dict(last)]})
    cases += res[3] + clashes(run, r)
    # Whatever else the operation would create is there already.
    for o in probes("SVED"):
        for via in ("api", "cli"):
            for size in (-1, 100, 3 * CH + 5):
                for prot in (False, True):
                    cases.append(probe_case(o, via, size, prot, r))
    run.conform("TracePsignify", cases, "changes")


SIZELESS = [p for p in ("/proc/version", "/proc/filesystems") if __import__("os").access(p, 4)]


def huge_sigs(run, alter):
    return [{"fam": "hugesig", "size": n, "alter": alter} for n in [(1 << 31) + 5] + ([(1 << 32) + 5] if run.thorough else [])]


@check("C01")
def signing(run):
    res = parallel(run.build, lambda: run.model("PsignifyMC", "Psignify.cfg"), lambda: run.model("VerifyDesign", "VerifyDesign.cfg"))
    r = rng(run, "sign")
    cases = []
    sizes = [-1, 1, 2, 31, 32, 63, 64, 65, 100, 127, 128, 129, 1023, 1024, 4095, 4096, 4097, 8192, 16385, 32768, 65535, 65536, 65537, 100000, 1 << 20, (1 << 20) + 1]
    if run.thorough:
        sizes += [1 << 26, (1 << 27) + 7] + [r.randrange(1, 200000) for _ in range(200)]
    pw = [[112], [0], [32], [10], [13, 10], [255, 254, 0, 10], list(range(256)), [120] * 71, [120] * 72, [120] * 73, [121] * 600, list("p\u00e4ss".encode()), list(b" lead and trail ")]
    names = ["key", "my key", "k.sec", ".hidden", "x\ny", "x\r\ny", "-S", "\u00fc", "untrusted comment: k", "=", "a" * 200, "sub/key", "tab\tkey", "k.pub", "'\"$x", "\\"]
    for i, n in enumerate(sizes * 3 + [(1 << 21) + 1, (1 << 22) + 3, (1 << 23) + 5, (1 << 24) + 1, (1 << 25) + 1] + [r.choice(sizes[:20]) for _ in range(400 if run.thorough else 60)]):
        name, m = r.choice(names), r.choice(["msg", "msg", "my msg", "msg.sig", "x\ny", "-m", "\u00fc", "sub/msg", ".sig"])
        prot = r.random() < .5
        g = ["k"] if prot else []
        x = r.choice(["", "", "out", "sub/out", "out.pub"])
        sig = x or m + ".sig"
        gen = op("G", "api", p=name, n=not prot, given=g) if r.random() < .6 else env("key", name, "k" if prot else "")
        ops = [env("mkdir", "sub"), env("write", m, size=n), gen]
        if r.random() < .6:
            ops.append(env("write", sig, size=r.choice([-1, 1, 100, 149, 150, 151, 5000])))
        v1, v2 = ("cli" if r.random() < .15 else "api" for _ in range(2))
        if v1 == "cli" and prot:
            v1 = "api"  # typing arbitrary bytes on a terminal is something else
        ops += [op("S", v1, s=name + ".sec", m=m, x=x, given=g), op("V", v2, p=name + ".pub", m=m, x=x)]
        if r.random() < .5:
            ops += [env("write", m, size=r.choice(sizes[:20])), op("S", "api", s=name + ".sec", m=m, x=x, given=g), op("V", "api", p=name + ".pub", m=m, x=x)]
        if r.random() < .4:
            # A secret key file need not be called .sec.
            k2 = r.choice(["secret", "sec", "k.se", "k.sec.old", "k.pub", ".sec", "K.SEC", "id", "sub/.sec.d", "k.sec ", "%s%d"])
            if k2 not in (m, sig):
                ops += [env("copy", k2, name + ".sec"), op("S", v1, s=k2, m=m, x=x, given=g), op("V", "api", p=name + ".pub", m=m, x=x)]
        if r.random() < .3:
            ops += [op("G", "api", p="other", n=True), op("S", "api", s="other.sec", m=m, x=x), op("V", "api", p="other.pub", m=m, x=x), op("S", "api", s=name + ".sec", m=m, x=x, given=g),
                    op("V", "api", p=name + ".pub", m=m, x=x)]
        cases.append({"fam": "history", "pre": 0, "pass": {"k": r.choice(pw)}, "ops": ops})
    # What the code itself mentions, as message, as passphrase, as file name.
    for x in lit_strs(run):
        t = x.decode("utf-8", "replace")
        k, m = ("key", "msg") if "/" in t or "\0" in t or len(x) > 60 else r.choice([("k" + t, "msg"), ("key", "m" + t), ("key", t + "m"), (t + "k", t)])
        if m in (".", "..") or m.startswith(k + "."):
            k, m = "key", "msg"
        prot = r.random() < .5
        cases.append({"fam": "history", "pre": 0, "pass": {"k": list(x)}, "ops": [env("write", m, size=r.choice([len(x), len(x) + 50]), fill=lit_fill(r, x)), op("G", "api", p=k, n=not prot, given=["k"] if prot else []),
                      op("S", "api", s=k + ".sec", m=m, x="", given=["k"] if prot else []), op("V", "api", p=k + ".pub", m=m, x="")]})
    for n in lit_sizes(run, 1 << 24, 60, (1024,)):
        cases.append({"fam": "history", "pre": 0, "ops": [env("write", "m", size=n), op("G", "api", p="k", n=True), op("S", "api", s="k.sec", m="m"), op("V", "api", p="k.pub", m="m")]})
    # Files whose size is not known in advance.
    for src in SIZELESS:
        for via in ("api", "cli"):
            cases.append({"fam": "history", "pre": 0, "ops": [env("symlink", "l", src), op("G", via, p="k", n=True), op("S", via, s="k.sec", m="l", x=""), op("V", via, p="k.pub", m="l", x=""),
                                                              env("copy", "n", "l"), op("V", via, p="k.pub", m="n", x="l.sig"), op("S", via, s="k.sec", m="n", x="x"), op("V", via, p="k.pub", m="l", x="x")]})
    for given in (["p", "p"], ["q", "q"]):
        cases.append({"fam": "history", "pre": 0, "ops": [op("G", given=given), op("S", m="m", given=given[:1]), op("V", m="m"), op("G", p="b", n=True), op("S", s="b.sec", m="m"), op("V", p="b.pub", m="m")]})
    cases += again(run, 1000 if run.thorough else 120)
    cases += linked(run, r, "S", 60 if run.thorough else 20) + odd_names(run, r, "SV", 1000)
    run.conform("TracePsignify", cases, "sign")
    run.conform("TraceFiles", huge_sigs(run, False), "huge")


def again(run, n):
    """Operations repeated when their output is there but for a detail."""
    r = rng(run, "again")
    out = []
    for i in range(n):
        prot = r.random() < .3
        g = ["p"] if prot else []
        size = r.choice([-1, 1, 10, 100, 5000, CH, CH + 1, 40000])
        pre = [env("write", "m", size=size), op("G", "api", p="a", n=not prot, given=g), op("E", "api", p="a.pub", m="m", c="c")]
        x = r.choice(["", "x"])
        s, d = op("S", "api", s="a.sec", m="m", x=x, given=g), op("D", "api", s="a.sec", c="c", m="o", given=g)
        e = op("E", "api", p="a.pub", m="m", c="c")
        v = op("V", "api", p="a.pub", m="m", x=x)
        ops = []
        for o, f in r.sample([(s, x or "m.sig"), (d, "o"), (e, "c"), (s, x or "m.sig")], 3):
            ops += [o, env("alter", f), o] + ([v] if o is s else [d] if o is e else [])
        ops = [dict(o, via="cli") if o["mode"] and not o["env"] and not prot and r.random() < .15 else dict(o) for o in ops]
        out.append({"fam": "history", "pre": 0, "ops": pre + ops, "frozen": r.random() < .4})
    return out


def late(o, **k):
    return dict(o, **k)


@check("C17")
def write_failures(run):
    res = parallel(run.build, lambda: run.model("Output", "Output.cfg"), lambda: run.model("Output", "OutputCases.cfg"))
    r = rng(run, "write")
    seen, cases = set(), []

    def add(mode, via, over, size, **k):
        msg, out = "msg", {"S": "x", "E": "c", "D": "o", "G": ""}[mode]
        pre = [env("write", msg, size=size or -1)]
        if mode != "G":
            pre.append(op("G", "api", p="a", n=True))
        if mode == "D":
            pre.append(op("E", "api", p="a.pub", m=msg, c="c"))
        if over != "none" and out:
            pre.append(env("write", out, size=5 if over == "shorter" else 200000))
        o = {"S": op("S", via, s="a.sec", m=msg, x="x"), "E": op("E", via, p="a.pub", m=msg, c="c"), "D": op("D", via, s="a.sec", c="c", m="o"),
             "G": op("G", via, p="b", n=True)}[mode]
        o.update(k)
        cases.append({"fam": "history", "pre": len(pre), "ops": pre + [o]})

    enc = lambda n: 43 + (lambda b: b + (b + 71) // 72)((72 + n + 16 * ((n + CH - 1) // CH) + 2) // 3 * 4)
    for c in res[2]:
        key = json.dumps(c, sort_keys=True)
        if key in seen:
            continue
        seen.add(key)
        mode, via, over, fault = c["mode"], c["via"], c["over"], c["fault"]
        if fault == "none":
            add(mode, via, over, r.choice([0, 1, 100, CH, 2 * CH + 3]))
        elif fault == "write" and via == "cli":
            for err in ("ENOSPC", "EIO", "EDQUOT") if run.thorough else (r.choice(["ENOSPC", "EIO", "EDQUOT"]),):
                add(mode, via, over, r.choice([0, 1, 100, CH, 2 * CH + 3]),
                    inject=["write,pwrite64,writev,sendfile,copy_file_range:error=%s:when=%d" % (err, c["at"])])
                if mode in "ED":
                    n = r.randrange(1, 400 if mode == "E" else 4)
                    add(mode, via, over, 5 * CH, inject=["write,pwrite64,writev,sendfile,copy_file_range:error=%s:when=%d" % (err, n)])
        elif fault == "close" and via == "cli":
            for err in ("ENOSPC", "EIO", "EDQUOT"):
                for n in (0, 1, CH + 1):
                    add(mode, via, over, n, inject=["close:error=" + err])
        elif fault == "space" and c["at"] == 0:
            # In place of the few bytes of the model: every number of bytes.
            for n in {"S": [50], "G": [0], "E": [0, 1, 53, 300], "D": [1, 100, 300]}[mode]:
                total = {"S": 200, "G": 190, "E": enc(n) + 1, "D": n + 1}[mode]
                for at in range(0, total + 1):
                    if (via == "api" and (over == "none" or run.thorough or r.random() < .15)) or (via == "cli" and r.random() < (.5 if run.thorough else .04)):
                        add(mode, via, over, n, limit=at)
            if mode in "ED":
                for n in (CH, CH + 1, 2 * CH, 3 * CH + 77):
                    total = enc(n) if mode == "E" else n
                    for at in {0, 42, 43, 44, total - 1, total, total - 2, total - 73, 4096, 8192, 16384, CH - 1, CH, CH + 1, 2 * CH, 2 * CH - 1, n - 1} | \
                            {r.randrange(total) for _ in range(60 if run.thorough else 6)}:
                        if at >= 0:
                            add(mode, via, over, n, limit=at)
    run.conform("TracePsignify", cases, "faults")
    fail_io(run)


@check("C08")
def generation_files(run):
    def bad(cfg):
        rc, out = run.tlc("GenerateMC.tla", cfg, workers=1)
        if "is violated" not in out:
            raise __import__("vlib").CheckError("a design that breaks the guarantees is not noticed: " + out[-2000:])
    res = parallel(run.build, lambda: run.model("GenerateMC", "Generate.cfg"), lambda: bad("GenerateBadOrder.cfg"), lambda: bad("GenerateBadModes.cfg"),
                   lambda: bad("GenerateBadLook.cfg"))
    r = rng(run, "gensys")
    cases = []

    def add(**k):
        c = {"fam": "gensys", "via": r.choice(["api", "cli"]), "pass": [], "pre": ["none", "none"], "umask": r.choice([0, 0, 0o22, 0o77, 0o2, 0o777, 0o700]),
             "fault": "none", "errno": r.choice(["ENOSPC", "EIO", "EDQUOT"])}
        c.update(k)
        if r.random() < .25:
            if c["via"] == "api":
                c["pass"] = [r.randrange(1, 256) for _ in range(r.randrange(1, 20))]
            elif r.random() < .1:
                c["pass"] = [112, 119]
        cases.append(c)
    rivals = []
    for c in res[1]:
        if c["rival"]:
            if c["pre"] == ["none", "none"] or c["umask"] == 0 and r.random() < .3:
                for via in ("api", "cli"):
                    rivals.append(dict(c, via=via, errno="EIO", **{"pass": []}))
            continue
        for via in ("api", "cli"):
            add(via=via, pre=c["pre"], umask=c["umask"], fault=c["fault"])
            if c["fault"] != "none":
                add(via=via, pre=c["pre"], umask=c["umask"], fault=c["fault"], kill=True)
    kinds = ["none", "file", "keyfile", "empty", "dir", "link", "dangling"]
    for a in kinds:
        for b in kinds:
            for via in ("api", "cli"):
                add(via=via, pre=[a, b])
    # Every system call that has to do with the files fails, or is the last one.
    for via in ("api", "cli"):
        for j in range(40 if run.thorough else 24):
            for u in (0, 0o22):
                add(via=via, fault="any", j=j, kill=True, umask=u)
                for e in ("EIO", "ENOSPC", "EINTR", "EACCES", "EMFILE") if run.thorough else ("EIO", "ENOSPC"):
                    add(via=via, fault="any", j=j, errno=e, umask=u)
        for n in range(0, 190):
            add(via=via, limit=n)
    for u in range(0, 512, 1 if run.thorough else 37):
        for via in ("api", "cli"):
            add(via=via, umask=u)
    # Whatever else it would create is there already, and files of similar names.
    others = [probe_case(o, via, 100, prot, r) for o in probes("G") for via in ("api", "cli") for prot in (False, False, True)[:3 if run.thorough or via == "api" else 2] for _ in range(4)]
    run.conform("TracePsignify", others, "others")
    if not run.thorough:
        cases = sample(run, cases, 900)
        rivals = sample(run, rivals, 60)
    # What is there already stays, whatever fails.
    for via in ("api", "cli"):
        for pre in (["keyfile", "keyfile"], ["keyfile", "none"], ["none", "keyfile"], ["file", "file"], ["link", "link"], ["empty", "empty"]):
            for e in ("EIO", "EMFILE", "ENFILE", "EACCES", "EROFS", "ENOMEM", "EINTR", "ENOSPC"):
                for j in (range(0, 8) if run.thorough else [r.choice([0, 0, 0, 1, 2, 3, 4, 5])]):
                    add(via=via, fault="any", j=j, errno=e, umask=0o22, pre=pre)
    # Somebody else creates one of the files at any moment.
    for via in ("api", "cli"):
        for j in range(40 if run.thorough else 14):
            for k in (1, 2):
                rivals.append({"fam": "gensys", "via": via, "pass": [112] if via == "api" and r.random() < .3 else [], "pre": ["none", "none"],
                               "umask": 0o22, "fault": "none", "errno": "EIO", "rival": k, "rat": "any", "j": j})
    cases += rivals
    run.conform("TraceGenerate", cases, "generate", cfg="TraceGenerate.cfg")


@check("C07")
def key_pairs(run):
    def bad():
        rc, out = run.tlc("EntropyMC.tla", "EntropyBad.cfg", workers=1)
        if "is violated" not in out:
            raise __import__("vlib").CheckError("a design that breaks the guarantees is not noticed: " + out[-2000:])
    res = parallel(run.build, lambda: run.model("EntropyMC", "Entropy.cfg"), bad, lambda: run.model("PsignifyMC", "Psignify.cfg"))
    run.serial_trace = True
    r = rng(run, "fresh")
    n = 4 if run.thorough else 1
    # All eight workers at the same time.
    cases = [{"fam": "fresh", "via": "api", "stat": True, "times": 32, "rounds": 1, "pass": []} for _ in range(8)]
    cases += [{"fam": "fresh", "via": "cli", "stat": i < 8 * n} for i in range(40 * n)]
    cases += [{"fam": "fresh", "via": "api", "pass": p, "rounds": rd, "times": 4}
              for p in ([97], [0], list(b"passphrase"), [255, 0, 1], [120] * 100) for rd in (1, 2, 5)]
    cases += [{"fam": "fresh", "via": "api", "times": 50, "rounds": 42} for _ in range(8 * n)]
    for c in res[1]:
        # The parts need 56 bytes; the model has fewer.
        for left in ([-1] if c["fail"] == 0 else [(c["fail"] - 1) * 56 // c["total"], c["fail"] - 1, 56 - c["fail"]]):
            for p in ([], [112]):
                cases.append({"fam": "fresh", "via": "entropy", "step": c["step"] ** 3, "left": left, "pass": p})
    for left in range(0, 80):
        cases.append({"fam": "fresh", "via": "entropy", "step": r.choice([1, 3, 5, 7, 8, 16, 31, 32, 100]), "left": left, "pass": r.choice([[], [112]])})
    for left in range(0, 56) if run.thorough else list(range(0, 48, 3)) + list(range(48, 56)):
        cases.append({"fam": "scarce", "step": r.choice([8, 16, 100]), "left": left, "pass": r.choice([[], [112]])})
    cases.append({"fam": "stat"})
    cases += [{"fam": "many", "n": 20000 * n}, {"fam": "many", "n": 12000 * n, "conc": 8}, {"fam": "many", "n": 150 * n, "prot": True}]
    run.conform("TraceKeyPairs", cases, "pairs")


@check("C19")
def conversion(run):
    run_models = lambda: run.model("CurveMC", "CurveMC.cfg")
    parallel(run.build, run_models)
    r = rng(run, "conv")
    cases = []
    n = 20 if run.thorough else 1
    for kind, cnt in (("low", 40), ("high", 40), ("beyond", 19), ("power", 60), ("ones", 30), ("limbs", 60), ("inverse", 30), ("square", 60), ("edges", 60), ("result", 60), ("random", 60)):
        total = {"beyond": 19, "power": 765}.get(kind, cnt * n) if run.thorough else cnt
        for i in range(total):
            j = i if kind not in ("power",) or run.thorough else r.randrange(765)
            if kind in ("low", "high") and i >= 20 and not run.thorough:
                j = r.randrange(20, 2000)
            for s in (0, 1) if run.thorough or i % 4 == 0 else (r.randrange(2),):
                cases.append({"fam": "convpub", "kind": kind, "i": j, "sign": s})
    for seed in ["00" * 32, "ff" * 32, "01" + "00" * 31, "00" * 31 + "80"] + [""] * (6000 if run.thorough else 900):
        cases.append({"fam": "convpair", "seed": seed, "prot": r.random() < .2})
    cases += [{"fam": "convpair", "gen": True, "prot": i % 5 == 0} for i in range(500 if run.thorough else 40)]
    run.conform("TraceCurve", cases, "convert")


KINDS25 = ["S", "V", "E", "D", "G", "T", "B"]


@check("C25")
def concurrent(run):
    def bad(d):
        rc, out = run.tlc("Concurrent.tla", "Concurrent-%s.cfg" % d, workers=1)
        if "is violated" not in out:
            raise __import__("vlib").CheckError("a design that breaks the guarantees is not noticed: %s %s" % (d, out[-2000:]))
    r = rng(run, "conc")
    n = 10 if run.thorough else 1
    race = {}

    def build():
        run.build()
        try:
            race["drv"] = run.build(race=True)
        except Exception as e:
            run.notes.append("no race detector: " + str(e)[:500])

    res = parallel(build,
                   lambda: run.model("Concurrent", "ConcurrentMC.cfg"),
                   lambda: run.model("Concurrent", "ConcurrentSim.cfg", simulate=300 * n, depth=40),
                   lambda: run.model("Concurrent", "ConcurrentSim5.cfg", simulate=100 * n, depth=60),
                   lambda: run.model("Concurrent", "ConcurrentLive.cfg"),
                   *[lambda d=d: bad(d) for d in ("scratch", "inplace", "umask", "temp")])
    cases = []
    for c in sample(run, res[1], 600 * n) + res[2] + res[3]:
        cases.append({"fam": "conc", "kinds": c["kinds"], "sched": c["sched"], "gates": r.choice([0, 0, 1, 2, 4, 5, 6, 7])})
    for k in range(20 * n):
        ks = [r.choice(KINDS25) for _ in range(16)]
        cases.append({"fam": "conc", "kinds": ks, "times": 6, "keys": r.choice([2, 2, 3, 16])})
    for k in KINDS25:
        cases.append({"fam": "conc", "kinds": [k] * 12, "times": 8})
        cases.append({"fam": "conc", "kinds": [k] * 12, "times": 4, "keys": 12})
    for c in cases:
        if r.random() < .5:
            c["fails"] = r.choice([1, 1, 3]) if "times" in c else 1
    for k in range(6 * n):
        cases.append({"fam": "conc", "kinds": [r.choice("SVEDG") for _ in range(10)], "times": 4, "procs": True})
    run.conform("TraceConcurrent", cases, "concurrent", cfg="TraceConcurrent.cfg")
    if race:
        cases = [{"fam": "conc", "kinds": [k] * 8, "times": 4} for k in KINDS25]
        cases += [{"fam": "conc", "kinds": [r.choice(KINDS25) for _ in range(16)], "times": 3} for _ in range(16 * n)]
        run.conform("TraceConcurrent", cases, "race", cfg="TraceConcurrent.cfg", drv=race["drv"])
    # In a process that has done nothing before.
    cold = [{"fam": "conc", "kinds": [k] * 10, "times": 1, "cold": c, "keys": n}
            for k in KINDS25 for c in (1, 2) for n in (2, 10)]
    cold += [{"fam": "conc", "kinds": [r.choice(KINDS25) for _ in range(12)], "times": 1, "cold": 1 + i % 2,
              "keys": r.choice([2, 12])} for i in range(20 * n)]
    run.conform("TraceConcurrent", [dict(c) for c in cold], "cold", cfg="TraceConcurrent.cfg", fresh=True, repeat=30)
    if race:
        run.conform("TraceConcurrent", cold, "coldrace", cfg="TraceConcurrent.cfg", fresh=True, repeat=10, drv=race["drv"])
