"""Per property: what is run (jobs), within which bounds, and what lies outside."""
import json, os, random
from check import Job

# ISO/IEC 18004 tables (parity codewords per block, number of blocks), level order L M Q H.
ECW = [[7,10,15,20,26,18,20,24,30,18,20,24,26,30,22,24,28,30,28,28,28,28,30,30,26,28,30,30,30,30,30,30,30,30,30,30,30,30,30,30],
       [10,16,26,18,24,16,18,22,22,26,30,22,22,24,24,28,28,26,26,26,26,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28],
       [13,22,18,26,18,24,18,22,20,24,28,26,24,20,30,24,28,28,26,30,28,30,30,30,30,28,30,30,30,30,30,30,30,30,30,30,30,30,30,30],
       [17,28,22,16,22,28,26,26,24,28,24,28,22,24,24,30,28,28,26,28,30,24,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30]]
NBLK = [[1,1,1,1,1,2,2,2,2,4,4,4,4,4,6,6,6,6,7,8,8,9,9,10,12,12,12,13,14,15,16,17,18,19,19,20,21,22,24,25],
        [1,1,1,2,2,4,4,4,5,5,5,8,9,9,10,10,11,13,14,16,17,17,18,20,21,23,25,26,28,29,31,33,35,37,38,40,43,45,47,49],
        [1,1,2,2,4,4,6,6,8,8,8,10,12,16,12,17,16,18,21,20,23,23,25,27,29,34,34,35,38,40,43,45,48,51,53,56,59,62,65,68],
        [1,1,2,4,4,4,5,6,8,8,11,11,16,16,18,16,19,21,25,25,25,34,30,32,35,37,40,42,45,48,51,54,57,60,63,66,70,74,77,81]]
IDX = [1, 0, 3, 2]  # raw level bits 0=M 1=L 2=H 3=Q -> row of the tables above


def ecw(v, lv): return ECW[IDX[lv]][v - 1]
def nblk(v, lv): return NBLK[IDX[lv]][v - 1]
def raw_modules(v):
    n = (16 * v + 128) * v + 64
    if v >= 2:
        a = v // 7 + 2
        n -= (25 * a - 10) * a - 55
        if v >= 7:
            n -= 36
    return n
def total_cw(v): return raw_modules(v) // 8
def short_blocks(v, lv): return nblk(v, lv) - total_cw(v) % nblk(v, lv)
def block_len(v, lv, b): return total_cw(v) // nblk(v, lv) + (b >= short_blocks(v, lv))


COMMON = [
    "rustc/LLVM lower the crate to the IR that is executed; the engine's IR semantics are validated on every run by replaying solver-chosen inputs natively",
    "Z3 4.8.12 and the engine's GF(2)/truth-table procedures are sound (every 5th built-in verdict is cross-checked with Z3)",
    "x86-64, 64-bit usize, allocation never fails",
]


# ---------------------------------------------------------------- C01
def c01(tier, seed):
    js = []
    for v in range(40, 0, -1):
        for lv in range(4):
            masks = [(v + lv) % 8]
            if tier == "thorough" or v in (1, 2):
                masks = range(8)
            for m in masks:
                js.append(Job("h_roundtrip", v, lv, m, 0, 2, fam=f"rt{v // 10}", secs=150,
                              falls=[[v, lv, m, 12, 0], [v, lv, m, 6, 0], [v, lv, m, 99, 0]]))
    return js


# ---------------------------------------------------------------- C02
def c02(tier, seed):
    js = []
    vs = [1, 2, 7, 40] if tier == "quick" else range(1, 41)
    for v in vs:
        js.append(Job("h_format", v, 0, fam="first", secs=200))
    for v in ([1, 40] if tier == "quick" else [1, 2, 3, 7, 10, 21, 40]):
        js.append(Job("h_format", v, 1, fam="fallback", notes=(1, 2), secs=300, falls=[[v, 4, seed]]))
        js.append(Job("h_format", v, 2, fam="both", secs=400, falls=[[v, 3, seed]]))
        for s in range(32 if tier == "quick" else 400):
            js.append(Job("h_format", v, 4, s + 32 * seed, fam="fallback", notes=()))
            js.append(Job("h_format", v, 3, s + 32 * seed, fam="both", notes=()))
    for d in range(32):
        for which in (0, 1):
            for v in ([1 + (d * 5 + which) % 9] if tier == "quick" else [1, 6, 7, 14]):
                js.append(Job("h_format_decode", v, d, which, fam=f"dec{which}", secs=120))
    if tier != "quick":
        js.append(Job("h_format", 1, 0, fam="first-z3", opts=["--plain", "1"], secs=600))
    return js


# ---------------------------------------------------------------- C03
def smallest_for_parity():
    best = {}
    for v in range(1, 41):
        for lv in range(4):
            e = ecw(v, lv)
            if e not in best or total_cw(v) < total_cw(best[e][0]):
                best[e] = (v, lv)
    return best


def ecc_falls(v, lv, b, kind, n, seed):
    return [[v, lv, b, kind, n, seed, 6, 99], [v, lv, b, kind, n, seed, 3, 99], [v, lv, b, kind, n, seed, 1, 99]]


def c03(tier, seed):
    js = []

    def add(v, lv, b, kind, n, s, g, k, fam):
        js.append(Job("h_ecc", v, lv, b, kind, n, s, g, k, fam=fam, secs=150, falls=ecc_falls(v, lv, b, kind if kind else 4, n, s)))

    # one error, any codeword, any value
    for lv in range(4):
        add(1, lv, 0, 0, 1, 1, 16, 0, "any1")
    # full capacity, every parity length that exists
    for e, (v, lv) in sorted(smallest_for_parity().items()):
        t = e // 2
        for kind, s in ((1, 1), (2, 2), (4, 3), (4, 3 + seed)):
            add(v, lv, nblk(v, lv) - 1, kind, t, s, 8, 99, "cap")
    # every number of errors up to the capacity
    for lv in range(4):
        for n in range(1, ecw(1, lv) // 2 + 1):
            add(1, lv, 0, 4, n, 10 + n + seed, 10, 0, "count")
            add(1, lv, 0, 3, n, n, 8, 99, "count")
    # every block of symbols with short and long blocks; errors in all blocks at once
    for v, lv in ((5, 3), (5, 2), (8, 3), (10, 1)):
        for b in range(nblk(v, lv)):
            add(v, lv, b, 4, ecw(v, lv) // 2, 20 + b, 6, 99, "blocks")
        add(v, lv, 999, 4, ecw(v, lv) // 2, 30, 2, 99, "all")
    # blocks of padding codewords, zeros, ones and text
    for v, lv in ((1, 0), (1, 2), (3, 3), (5, 2), (7, 3)):
        for k in range(100, 105):
            for b in (999,) if nblk(v, lv) > 1 else (0,):
                add(v, lv, b, 4 if k % 2 else 1, ecw(v, lv) // 2, 7 + k, 4 if v < 3 else 2, k, "uniform")
    # large symbols: first and last block
    for v, lv in ((21, 0), (27, 2), (40, 1)):
        for b in ((nblk(v, lv) - 1,) if tier == "quick" else (0, short_blocks(v, lv), nblk(v, lv) - 1)):
            add(v, lv, b, 4, ecw(v, lv) // 2, 40 + seed, 4, 99, "large")
    # Z3 alone, without the built-in canonical forms
    js.append(Job("h_ecc", 1, 1, 0, 4, 1, 1, 8, 0, fam="z3", opts=["--plain", "1"], secs=200))
    if tier == "thorough":
        for v in range(1, 41):
            for lv in range(4):
                for kind in (1, 2, 3, 4):
                    for b in {0, short_blocks(v, lv) - 1, nblk(v, lv) - 1}:
                        js.append(Job("h_ecc", v, lv, b, kind, ecw(v, lv) // 2, 50 + seed, 8, 99, fam="deep", secs=900,
                                      falls=ecc_falls(v, lv, b, kind, ecw(v, lv) // 2, 50 + seed)))
        for lv in range(4):
            for s in range(300):
                js.append(Job("h_ecc", 1, lv, 0, 5, 2, s, 16, 0, fam="pairs", secs=300))
    js.sort(key=lambda j: -j.params[0])
    return js


# ---------------------------------------------------------------- C04
def c04(tier, seed):
    js = []

    def add(v, lv, b, kind, n, s, g, fam):
        js.append(Job("h_ecc_beyond", v, lv, b, kind, n, s, g, 99, fam=fam, notes=(), secs=200,
                      falls=[[v, lv, b, kind, n, s, 4, 99], [v, lv, b, kind, n, s, 1, 99]]))

    g = 6 if tier == "quick" else 10
    for lv in range(4):
        t = ecw(1, lv) // 2
        for x in (1, 2, 3) if tier == "quick" else range(1, t + 4):
            for s in range(1, 3 if tier == "quick" else 8):
                n = min(t + x, 22)
                add(1, lv, 0, 6, n, s + seed, g, "v1")
        for kind in (1, 2, 3):
            add(1, lv, 0, kind, t + 1, 1, g, "v1")
    # damage that all but a few of the syndromes overlook
    def hidden(v, lv, b, kind, n, s):
        js.append(Job("h_ecc_beyond", v, lv, b, kind, n, s, 8, 99, fam="hidden", notes=(), secs=150))

    for v, lv in ((1, 0), (1, 1), (1, 2), (1, 3)) + (() if tier == "quick" else ((2, 0), (3, 3), (5, 3), (10, 1))):
        e, b = ecw(v, lv), nblk(v, lv) - 1
        for n in range(e // 2 + 1, e):
            hidden(v, lv, b, 7, n, 64 + (n + seed) % 30)
            if n % 2 == 0 or tier != "quick":
                hidden(v, lv, b, 8, n, 64 + (n * 3 + seed) % 30)
        for skip in range(e):
            hidden(v, lv, b, 7, e, skip)
    for v, lv in ((2, 1), (3, 2), (5, 3), (8, 3)) + (() if tier == "quick" else ((10, 0), (14, 1), (21, 3), (40, 2))):
        for b in {0, nblk(v, lv) - 1}:
            for s in (1, 2):
                add(v, lv, b, 6, ecw(v, lv) // 2 + s, s, 4, "larger")
    # blocks of padding codewords, zeros, ones and text
    for v, lv in ((1, 1), (1, 3), (4, 2), (5, 3), (10, 0)):
        for k in range(100, 105):
            for b in {0, short_blocks(v, lv) - 1, nblk(v, lv) - 1}:
                for kind in (2, 6) if v < 10 or tier != "quick" else (6,):
                    js.append(Job("h_ecc_beyond", v, lv, b, kind, ecw(v, lv) // 2 + 1, k + b, 4, k, fam="uniform", notes=(), secs=120,
                                  falls=[[v, lv, b, kind, ecw(v, lv) // 2 + 1, k + b, 1, k]]))
    return js


# ---------------------------------------------------------------- C05
def c05(tier, seed):
    js = []

    def add(v, lv, code, n, ns, tail, fam, falls=True):
        js.append(Job("h_seg", v, lv, code, n, ns, tail, fam=fam, secs=120,
                      falls=[[v, lv, code, n, 1, 0], [v, lv, code, n, 0, 0]] if falls else []))

    for v in (1, 9, 10, 26, 27, 40) if tier == "quick" else range(1, 41):
        for lv in (range(4) if tier != "quick" else (0, 1, 2) if v == 1 else (v % 4,)):
            for ty in (1, 2, 3, 4):
                for n in (1, 2, 3, 4, 5, 6):
                    if v < 9 or (n == 2 + v % 2) or tier != "quick":
                        if v == 1 and lv == 2 and ty == 4 and n > 4:
                            continue
                        add(v, lv, ty, n, 3 if v < 10 else 1, 1 if v < 10 else 0, f"seg{ty}")
                add(v, lv, ty, 0, 2, 2, f"fill{ty}")
    for code in (12, 21, 13, 31, 14, 41, 23, 32, 24, 42, 34, 43, 1234, 4321, 53, 63, 73, 51, 62, 74, 3535, 333, 111, 222, 444, 1212, 563, 5, 6, 7):
        for n in (1, 2, 3):
            for v, lv in ((4, 1), (11, 0), (28, 1)) if (n == 2 and code < 50) or tier != "quick" else ((4, 1),):
                add(v, lv, code, n, 1, 1 if v == 4 else 0, "mixed")
    for code in (13, 31, 24, 42, 34, 53):
        add(2, 1, code, 0, 1, 2, "mixfill")
    js.sort(key=lambda j: -j.params[0])
    return js


# ---------------------------------------------------------------- C06
def c06(tier, seed):
    js = []

    def add(v, lv, code, n, w0, wl, fill, s, fam, notes=(), secs=200):
        js.append(Job("h_stream", v, lv, code, n, w0, wl, fill, s, fam=fam, notes=notes, secs=secs,
                      falls=[[v, lv, code, n, w0, max(4, wl - 4), fill, s], [v, lv, code, n, w0, 4, fill, s]]))

    # first mode and count symbolic, the rest noise / zeros / ones
    for lv in range(4):
        for fill in (0, 1, 2):
            add(1, lv, 0, 0, 0, 12 if lv != 2 or fill else 14, fill, 1 + lv + seed, "head")
    # a complete segment followed by an arbitrary mode and count
    for code, n in ((1, 4), (2, 3), (3, 2), (4, 2), (5, 0), (6, 0), (7, 0)):
        w0 = {1: 4 + 10 + 14, 2: 4 + 9 + 17, 3: 4 + 8 + 16, 4: 4 + 8 + 26, 5: 12, 6: 20, 7: 28}[code]
        add(1, 1, code, n, w0, 10, 0, 3 + seed, "second")
        add(1, 0, code, n, w0, 10, 2, 4, "second")
    # the end of the symbol: windows that reach the last bit
    for lv, cap in ((1, 152), (0, 128), (3, 104), (2, 72)):
        for code, n, used in ((3, cap // 8 - 2 - 1, 12 + 8 * (cap // 8 - 3)), (3, cap // 8 - 2 - 2, 12 + 8 * (cap // 8 - 4)), (3, cap // 8 - 5, 12 + 8 * (cap // 8 - 5))):
            left = cap - used
            for w0 in range(used, cap - 3, 8):
                wl = min(12, cap - w0)
                add(1, lv, code, n, w0, wl, 0, 5 + seed, "end")
    for v, lv in ((10, 2), (27, 2), (9, 2), (26, 1), (40, 1)):
        add(v, lv, 0, 0, 0, 8, 0, 2, "ranges")
    if tier == "thorough":
        for lv in range(4):
            for s in range(20):
                add(1, lv, 0, 0, 0, 16, 0, 100 + s, "deep", secs=900)
                add(2, lv, 3, 5, 4 + 8 + 40, 14, 0, 100 + s, "deep", secs=900)
    return js


# ---------------------------------------------------------------- C07
def c07(tier, seed):
    js = []
    for v in range(1, 41):
        for lv in (range(4) if v <= 6 or tier != "quick" else [v % 4]):
            for m in ([(v * 3 + lv) % 8] if tier == "quick" or v > 10 else range(8)):
                if v > 20 and tier == "quick" and v % 4 != 0:
                    continue
                js.append(Job("h_roundtrip", v, lv, m, 8 if v < 10 else 4, 1, fam="mirror", secs=150,
                              falls=[[v, lv, m, 3, 1], [v, lv, m, 99, 1]]))
    for m in range(8):
        js.append(Job("h_roundtrip", 1, 1, m, 8, 1, fam="mirror", secs=150, falls=[[1, 1, m, 99, 1]]))
    for w, n in ((0, 10), (1, 10), (13, 10), (11023, 11), (24, 11), (2086, 11), (12, 12), (18, 12), (10030, 12), (11, 13), (14, 13), (20, 13)):
        for v in (1, 2) if tier == "quick" else (1, 2, 5, 7):
            js.append(Job("h_mirror_err", v, 1 + seed, w, 4, fam=f"err{n}", notes=(1, n), secs=120, falls=[[v, 1 + seed, w, 1]]))
    # damaged format information: the upright reading may fail in any way
    for d in range(32):
        js.append(Job("h_format_decode", 1 + (d + seed) % (2 if tier == "quick" else 7), d, 3, fam="format", secs=120, falls=[[1, d, 2]]))
    for lv in range(4):
        for m in (lv, lv + 4):
            for mi in (0, 1):
                js.append(Job("h_mirror_payload", 1 + lv, lv, m, mi, fam="payload"))
    js.sort(key=lambda j: -j.params[0])
    return js


# ---------------------------------------------------------------- C08
def c08(tier, seed):
    js = []
    for code, n in ((1, 7), (1, 8), (1, 9), (2, 7), (2, 6), (3, 10), (4, 4), (13, 5), (21, 4), (34, 3), (1234, 2), (533, 3)):
        for kind in range(4):
            for step in (1, 2, 3, 64):
                v = 4 if code > 100 else 2
                js.append(Job("h_writer", v, 1, code, n, kind, step, fam=f"kind{kind}", notes=(1, 2), secs=100))
    return js


# ---------------------------------------------------------------- C09
def c09(tier, seed):
    js = []
    for n0, ns, n1 in ((0, 1, 0), (0, 1, 3), (3, 1, 0), (0, 2, 0), (0, 2, 2), (5, 2, 5), (0, 3, 0), (2, 3, 2), (12, 3, 0), (0, 4, 0), (3, 4, 1), (9, 4, 4)):
        js.append(Job("h_text", 1, 1, n0, ns, n1, fam="v1", notes=(1, 2), secs=200, falls=[[1, 1, n0, max(1, ns - 2), n1]]))
    for v, lv, n0, ns, n1 in ((2, 1, 14, 3, 14), (2, 1, 15, 2, 15), (2, 1, 28, 4, 0), (2, 1, 7, 4, 20), (5, 1, 60, 3, 30), (10, 1, 120, 3, 60)):
        js.append(Job("h_text", v, lv, n0, ns, n1, fam="long", notes=(1, 2), secs=200, falls=[[v, lv, n0, 1, n1]]))
    if tier == "thorough":
        for n0 in range(0, 13):
            js.append(Job("h_text", 1, 1, n0, 5, 17 - 5 - n0, fam="five", notes=(1, 2), secs=1500, falls=[[1, 1, n0, 4, 13 - n0 if n0 <= 13 else 0]]))
    return js


# ---------------------------------------------------------------- C10
def c10(tier, seed):
    js = []
    for n in list(range(0, 21)):
        js.append(Job("h_any", n, 0, 1, 0, fam="tiny", notes=(2,)))
        js.append(Job("h_any", n, 1, n + seed, 4, fam="tiny1", notes=(2, 3)))
    for n in (21, 22, 23, 24, 25, 29, 33, 40, 45, 57, 58, 63) if tier == "quick" else range(21, 181):
        js.append(Job("h_any", n, 0, 1, 0, fam="raw", notes=(1, 2), secs=120))
    for n in range(181, 190):
        js.append(Job("h_any", n, 3, 1, 0, fam="huge", notes=(2, 3)))
    for k in (8, 16, 31, 32, 33, 62, 63):
        for d in (-1, 0, 1):
            js.append(Job("h_any", (1 << k) + d if (1 << k) + d > 180 else 200, 3, 1, 0, fam="huge", notes=(2, 3)))
    js.append(Job("h_any", (1 << 64) - 1, 3, 1, 0, fam="huge", notes=(2, 3)))
    js.append(Job("h_any", 0, 4, 1, 0, fam="huge", notes=(2, 3), falls=[[(1 << k) + n, 3, 1, 0] for k in (16, 32) for n in (21, 177)]))
    for k in (8, 16, 32):
        for n in (21, 25, 101, 177):
            js.append(Job("h_any", (1 << k) + n, 3, 1, 0, fam="huge", notes=(2, 3)))
    for i in range(64 if tier == "quick" else 400):
        n = 21 + (i * 7 + seed) % (40 if i % 4 else 160)
        js.append(Job("h_any", n, 1, i, 3, fam="fmt", notes=(), secs=100, falls=[[n, 1, i, 1]]))
        js.append(Job("h_any", n, 2, i + 1000 * seed, 5, fam="win", notes=(), secs=100, falls=[[n, 2, i + 1000 * seed, 2]]))
    return js


# ---------------------------------------------------------------- C11
def c11(tier, seed):
    js = []
    for v in range(40, 0, -1):
        for lv in (range(4) if tier != "quick" else [v % 4]):
            for m in (range(8) if tier != "quick" else [(v // 4 + lv) % 8]):
                js.append(Job("h_raw", v, lv, m, fam="raw", secs=120))
    return js


# ---------------------------------------------------------------- C12
def c12(tier, seed):
    js = [Job("h_version", fam="version", notes=(1, 2))]
    for n in (list(range(0, 34)) + [45, 57, 64, 77, 101, 133, 177, 256, 257, 300]) if tier == "quick" else range(0, 200):
        js.append(Job("h_simple", n, fam="simple"))
    for n in (0, 1, 7, 8, 9, 63, 64, 65, 77, 1000, 8896 * 8):
        js.append(Job("h_push", n, fam="push", secs=200))
    return js


# =====IMG
# seeds of h_total kind 10: pictures in which grids are found / which used to make detection panic
GRIDS = [
    742, 1296, 2050, 8187, 9723, 12628, 13283, 20970, 21592, 23479, 26008, 28196, 31920, 34563, 34707, 41691,
    46495, 48307, 48333, 50398, 50449, 52756, 56006, 56915, 58050, 58299, 60116, 60361, 64862, 66363, 67050,
    67593, 69800, 72785, 73464, 73785, 78188, 79229, 82501, 86164, 94865, 95773, 96782, 110587, 116036, 116071,
    116537, 122003, 125598, 125952, 129461, 134370, 139685, 143728, 147357, 151865, 152886, 155780, 158075,
    159085, 160025, 161612, 163860, 165068, 165454, 167106, 174908, 181615, 183368, 183510, 184482, 185812,
    188790, 189455, 204644, 208674, 210453, 211334, 212614, 215607, 217475, 218595, 221565, 223853, 224481,
    226394, 231663, 235398, 238967, 243497, 244383, 248822, 249709, 250679, 251692, 252721, 256204, 258488,
    260200, 263693, 267679, 272725, 276547, 280195, 280561, 280665, 280743, 281286, 284906, 285113, 285739,
    286049, 290471, 291349, 291534, 291651, 294347, 294761, 299375, 299585,]
PANICS = [
    3775182, 4183641, 6402293, 9529766, 24438, 606896, 693318, 907038, 1004296, 1087729, 1106377, 1282180,
    1371706, 1479275, 2151113, 2174377, 2264955, 2310452, 2469318, 2755776, 2963622, 3005992, 3137095, 3455266,
    3881492, 3932649, 4017087, 4181888, 4223147, 4299661, 4325244, 4641193, 4803806, 4933249, 5056801, 5481603,
    5703267, 5871893, 5894709, 5913374, 6004173, 6236742, 6341100, 6376248, 6451481, 6964224, 7019968, 7071467,
    7410186, 7665770, 7681506, 7990348, 8000216, 8084210, 8386858, 8591144, 8847154, 8855009, 9052597, 9379780,
    129461, 229095, 273525, 291220,]
# n, seed, s16, angles, largest version, gap, mirrored: native runs find exactly the symbols
MULTI = [
    (2,8,48,0,1,0,0), (2,5,64,0,2,0,1), (2,5,48,0,1,0,1), (2,2,48,0,1,30,0), (2,0,48,0,2,0,0), (2,6,64,0,2,0,0),
    (2,7,64,0,2,0,1), (2,0,48,0,5,30,0), (2,5,64,0,5,0,1), (2,9,64,0,2,30,1), (2,0,64,0,1,0,0), (2,3,64,0,2,0,1),
    (2,9,48,0,5,30,1), (2,6,64,0,1,0,0), (2,5,48,1,2,0,1), (2,9,48,1,2,0,1), (2,0,48,1,2,0,0), (2,5,64,1,5,30,1),
    (2,2,48,1,1,30,0), (2,7,64,1,1,0,1), (2,7,64,1,5,30,1), (2,8,64,1,1,30,0), (2,3,48,1,2,30,1),
    (2,6,64,1,2,30,0), (2,3,64,1,1,0,1), (2,1,48,1,5,0,1), (2,2,48,1,5,0,0), (2,6,64,1,1,30,0), (2,7,64,2,5,0,1),
    (2,3,64,2,2,30,1), (2,8,64,2,5,0,0), (2,0,64,2,2,0,0), (2,4,64,2,5,0,0), (2,8,64,2,5,30,0), (2,2,64,2,5,0,0),
    (2,4,64,2,2,30,0), (2,5,64,2,1,30,1), (2,8,64,2,2,30,0), (2,1,64,2,5,0,1), (2,5,64,2,1,0,1),
    (2,7,64,2,2,0,1), (2,5,64,2,5,30,1), (3,6,64,0,5,30,0), (3,6,48,0,2,0,0), (3,2,64,0,2,30,0),
    (3,6,64,0,1,30,0), (3,7,64,0,2,0,1), (3,3,48,0,5,30,1), (3,4,64,0,2,0,0), (3,7,64,0,5,30,1),
    (3,4,64,0,5,0,0), (3,5,48,0,5,30,1), (3,3,48,1,2,0,1), (3,2,64,1,1,0,0), (3,9,48,1,2,0,1), (3,7,48,1,5,30,1),
    (3,3,48,1,5,30,1), (3,4,48,1,2,30,0), (3,4,48,1,5,30,0), (3,5,64,1,5,0,1), (3,2,64,1,2,0,0),
    (3,7,64,1,1,0,1), (3,5,64,2,5,30,1), (3,0,64,2,1,30,0), (3,3,64,2,2,30,1), (3,3,64,2,5,0,1),
    (3,2,64,2,5,30,0), (3,1,64,2,1,0,1), (3,6,64,2,1,30,0), (3,0,64,2,2,0,0), (3,6,64,2,1,0,0), (3,4,64,2,2,0,0),
    (4,5,48,0,5,0,1), (4,3,48,0,2,30,1), (4,8,64,0,5,0,0), (4,3,64,0,2,30,1), (4,4,48,0,5,30,0),
    (4,9,48,0,5,30,1), (4,9,48,0,5,0,1), (4,8,64,0,2,30,0), (4,0,48,1,5,30,0), (4,0,64,1,2,0,0),
    (4,7,64,1,1,30,1), (4,7,48,1,1,30,1), (4,3,48,1,2,30,1), (4,7,48,1,1,0,1), (4,0,48,1,1,30,0),
    (4,9,48,1,1,30,1), (4,8,64,2,1,0,0), (4,8,64,2,2,30,0), (4,1,64,2,5,0,1), (4,6,64,2,5,0,0),
    (4,6,64,2,5,30,0), (4,7,64,2,5,30,1), (4,8,64,2,2,0,0), (4,4,64,2,2,30,0), (6,7,48,0,2,0,1),
    (6,1,64,0,2,30,1), (6,8,64,0,1,30,0), (6,0,64,0,2,30,0), (6,6,48,1,1,30,0), (6,3,48,1,1,30,1),
    (6,8,48,1,5,30,0), (6,2,64,1,1,0,0), (6,6,64,2,5,0,0), (6,8,64,2,2,0,0), (6,1,64,2,1,30,1),
    (6,1,64,2,2,30,1),
    # turned sheets that lost codes before b4e0188
    (4,12,48,1,3,15,0),
    (6,10,80,1,3,0,0),
    (6,9,80,1,1,15,1),
    (4,8,48,1,3,15,0),
    (2,12,80,1,1,15,0),
    (6,10,80,1,1,15,1),
    (6,5,80,2,1,0,0),
    (4,4,80,2,3,15,0),
    (3,5,80,2,3,0,1),
    (4,2,80,2,3,15,0),
    (6,9,80,2,3,15,0),
    (6,2,80,2,1,15,1),
    # upright sheets that lost codes before b4e0188
    (9, 9, 32, 0, 1, 0, 0), (6, 4, 48, 0, 3, 0, 1), (6, 2, 48, 0, 1, 0, 1), (9, 5, 32, 0, 6, 0, 0), (9, 5, 32, 0, 1, 0, 0), (4, 10, 80, 0, 3, 0, 0), (4, 8, 48, 0, 1, 0, 1), (6, 13, 32, 0, 1, 0, 0), (6, 11, 48, 0, 6, 0, 1), (6, 14, 48, 0, 1, 0, 0),
    (6, 12, 32, 0, 1, 0, 1), (4, 14, 48, 0, 1, 0, 1), (4, 14, 48, 0, 6, 0, 0), (6, 13, 48, 0, 6, 0, 1), (6, 3, 32, 0, 1, 0, 1), (4, 3, 48, 0, 1, 0, 0), (4, 14, 48, 0, 3, 0, 0), (4, 12, 80, 0, 3, 0, 0), (4, 1, 48, 0, 1, 0, 1),
]
MULTI_THOROUGH = [(9, 6, 48, 0, 10, 0, 1)]

GEO = [tuple(g) for g in json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "geometry.json")))]
IMG = ["--merge-words", "1", "--merge-pop", "64", "--region", "200000"]


def img(entry, *params, fam=None, secs=150, falls=(), notes=(1,)):
    return Job(entry, *params, fam=fam, secs=secs, opts=IMG, falls=falls, notes=notes)


# ---------------------------------------------------------------- C13
def c13(tier, seed):
    js = []
    sizes = [(1, 1), (2, 1), (1, 2), (3, 5), (7, 7), (8, 4), (9, 3), (15, 6), (16, 5), (17, 9), (23, 4), (24, 3), (31, 8), (40, 6), (64, 9), (100, 5), (257, 3)]
    js.append(img("h_grey", 1500, 2, 4, 8, seed, 0, fam="wide"))
    js.append(img("h_grey", 4200, 1, 0, 8, seed, 1, fam="wide"))
    js.append(img("h_grey", 3, 140, 1, 8, seed, 0, fam="wide"))
    js.append(img("h_grey", 11, 90, 2, 8, seed, 1, fam="wide"))
    for i, (w, h) in enumerate([(17, 70), (24, 140), (40, 100), (64, 200), (21, 600), (90, 90), (33, 1100), (129, 270), (300, 300), (2050, 9), (640, 480)]):
        for kind in (0, 1, 2, 6):
            if w * h > 100000 and kind != i % 3 and tier == "quick":
                continue
            js.append(img("h_grey", w, h, kind, 8, seed + 40 + i, (i + kind) % 2, fam="large"))
    if tier == "thorough":
        sizes += [(w, 1 + w * 7 % 11) for w in range(1, 130)] + [(1023, 3), (2050, 2), (5, 300)]
    for i, (w, h) in enumerate(sizes):
        for kind in range(7):
            how = (i + kind) % 2
            js.append(img("h_grey", w, h, kind, 16 if w * h > 4 and (kind + i) % 3 == 0 else 8, seed + i, how, fam=f"grey{how}", secs=120,
                          falls=[[w, h, kind, 8, seed + i, how], [w, h, kind, 4, seed + i, how]]))
            if tier == "thorough":
                js.append(img("h_grey", w, h, kind, 24, seed + i + 500, 1 - how, fam=f"grey{1 - how}", secs=600,
                              falls=[[w, h, kind, 8, seed + i + 500, 1 - how]]))
    for w, h in ((0, 0), (0, 7), (7, 0)):
        js.append(img("h_grey", w, h, 4, 0, 1, 0, fam="empty"))
    return js


# ---------------------------------------------------------------- C14
def c14(tier, seed):
    js = []
    sizes = [(1, 1), (1, 9), (9, 1), (2, 3), (3, 2), (8, 8), (13, 7), (7, 13), (21, 20), (5, 64), (64, 5), (31, 17)]
    if tier == "thorough":
        sizes += [(w, 1 + w * 5 % 23) for w in range(1, 60)]
    for w, h in sizes:
        for how in (0, 1):
            js.append(img("h_bitmap", w, h, min(w * h, 600), seed, how, fam=f"pixels{how}", secs=120, falls=[[w, h, 16, seed, how]]))
    for w, h in ((300, 2), (2, 300), (33000, 1), (1, 33000), (66000, 2), (2, 66000)):
        for how in (0, 1):
            js.append(img("h_bitmap", w, h, 200, seed, how, fam=f"pixels{how}", secs=120, falls=[[w, h, 16, seed, how]]))
    for w, h in ((0, 0), (0, 5), (5, 0)):
        js.append(img("h_bitmap", w, h, 0, 1, 0, fam="empty"))
    return js


# ------------------------------------------------------------ C15, C16
def scenes(seeds, k, full, secs=90):
    return [img("h_total", 10, 0, 0, s, k, full, fam="scene", secs=secs, falls=[[10, 0, 0, s, max(1, k // 2), full], [10, 0, 0, s, 1, full]]) for s in seeds]


def c15(tier, seed):
    n = 70 if tier == "quick" else len(GRIDS)
    off = 0 if seed == 1 else seed * 37
    pick = [GRIDS[(off + i) % len(GRIDS)] for i in range(n)]
    js = scenes(pick, 3 if tier == "quick" else 8, 1)
    for i in range(40 if tier == "quick" else 400):
        js += scenes([1000 * seed + i], 5 if tier == "quick" else 8, 1)
    for a, v, s in ((2, 1, 0), (3, 2, 1), (2, 3, 2), (3, 7, 3), (1, 1, 5), (4, 1, 7)):
        js.append(img("h_total", 3, a, v, s, 2, 1, fam="symbol"))
    # many small regions: colours are recycled
    for a, b in ((14, 9), (16, 8), (13, 10), (20, 14), (30, 9)):
        js.append(img("h_total", 4, a, b, seed, 3, 1, fam="regions"))
    return js


def c16(tier, seed):
    js = []
    # slowest first: patterns and symbols too large for any code
    js.append(img("h_total", 2, 150, 14, 0, 0, 0, fam="large", secs=300))
    js.append(img("h_total", 5, 8000, 1, 1, 0, 0, fam="large", secs=300))
    js.append(img("h_total", 5, 1, 8000, 1, 0, 0, fam="large", secs=300))
    for b in (150, 165, 171, 172, 180, 200):
        js.append(img("h_total", 2, 2, b, 3, 1, 0, fam="toolarge"))
    n = len(PANICS)
    js += scenes(PANICS, 2, 0)
    for i in range(60 if tier == "quick" else 2000):
        js += scenes([5000 * seed + i], 4 if tier == "quick" else 8, 0)
    js.append(img("h_total", 8, 1, 42, 6048, 3, 0, fam="dented"))
    for i in range(12 if tier == "quick" else 200):
        js.append(img("h_total", 8, 1 + i % 2, 14 + i * 5 % 30, seed + i, 3, 0, fam="dented"))
        js.append(img("h_total", 6, 2 + i % 4, 3 + i % 5, seed + i, 4, 0, fam="dented"))
        js.append(img("h_total", 7, 40 + i * 9 % 50, 40 + i * 7 % 50, seed + i, 3, 0, fam="perspective"))
        js.append(img("h_total", 0, 5 + i * 11 % 60, 3 + i * 7 % 40, seed + i, 6, 0, fam="noise"))
        js.append(img("h_total", 2, 1 + i % 3, 14 + i * 3 % 26, seed + i, 3, 0, fam="corners"))
    for a in (1, 2, 3, 5):
        for b in (0, 1, 2):
            js.append(img("h_total", 1, a, b, 0, 4, 0, fam="border"))
    for w, h in ((0, 0), (0, 1), (1, 0), (0, 50), (50, 0), (1, 1), (1, 40), (40, 1), (300, 2), (64, 64)):
        for s in (0, 1):
            js.append(img("h_total", 9, w, h, s, 0 if w * h == 0 else 3, 0, fam="flat"))
    for a, b in ((14, 9), (28, 9), (27, 10), (13, 20)):
        js.append(img("h_total", 4, a, b, 0, 3, 0, fam="regions"))
    return js


# ------------------------------------------------------------ C17, C19
def upright():
    out = []
    for i, v in enumerate((1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 14, 16, 20, 21, 25, 27, 32, 40)):
        for j, s in enumerate((16, 32, 48, 80)):
            if (s == 16 and v > 7) or (s > 32 and v > 16) or (v > 8 and (i + j) % 2):
                continue
            out.append((v, s))
    return out


PADS = [(0, 0, 0, 0), (37, 0, 0, 0), (0, 51, 0, 0), (0, 0, 43, 0), (0, 0, 0, 29), (60, 3, 0, 20), (3, 80, 25, 0), (0, 0, 90, 7)]


def detect(g, k, what, how=0, seed=1, np=0, fam="any", secs=150, pad=(0, 0, 0, 0)):
    v, s, rot, flip, gx, gy, sl, exact = g
    w = what if exact else what | 1
    lv, m = (seed + v) % 4, (seed * 3 + rot) % 8
    head = [v, lv, m, s, rot, flip, gx, gy, sl, 4]
    return img("h_detect", *head, k, seed, w, how, 0, 255, 0, np, *pad, fam=fam, secs=secs, falls=[[*head, 1, seed, w, how, 0, 255, 0, min(np, 1), *pad]])


def c17(tier, seed):
    js = []
    for i, (v, s) in enumerate(upright()):
        js.append(detect((v, s, 0, i % 2, 0, 0, 0, 1), 2, 2, 0 if i % 3 else 3, seed, fam="upright", pad=PADS[i % 8]))
    geo = GEO[:70] if tier == "quick" else GEO
    for j, g in enumerate(geo):
        js.append(detect(g, 2 if tier == "quick" else 6, 2, 0, 1 + seed % 6, fam="turned" if g[4] == g[5] == g[6] == 0 else "slanted", pad=PADS[j % 8]))
    for i, (v, s) in enumerate(((1, 48), (2, 48), (2, 80), (3, 48), (5, 48), (7, 48))):
        js.append(detect((v, s, 0, i % 2, 0, 0, 0, 1), 0, 3, 0, seed + i, np=4, fam="specks"))
    js.sort(key=lambda j: -j.params[0] * j.params[3])
    js.append(img("h_detect", 7, 2, 2, 128, 66, 0, 0, 0, 0, 4, 0, 1, 3, fam="turned"))
    return js


def c19(tier, seed):
    js = []
    for i, (v, s) in enumerate(upright()):
        js.append(detect((v, s, 0, (i + 1) % 2, 0, 0, 0, 1), 1, 5, 0, seed, fam="upright", pad=PADS[(i + 3) % 8]))
    geo = GEO[30:110] if tier == "quick" else GEO
    for j, g in enumerate(geo):
        if g[7]:
            js.append(detect(g, 1 if tier == "quick" else 4, 5, 0, 1 + seed % 6, fam="turned" if g[4] == g[5] == g[6] == 0 else "slanted", pad=PADS[j % 8]))
    js.sort(key=lambda j: -j.params[0] * j.params[3])
    return js


# ---------------------------------------------------------------- C18
def c18(tier, seed):
    js = []
    for n, s, s16, ang, vm, gap, mir in MULTI + (MULTI_THOROUGH if tier != "quick" else []):
        js.append(img("h_multi", n, s, s16, ang, vm, 2 if tier == "quick" else 5, gap, mir, fam=f"sheet{n}", falls=[[n, s, s16, ang, vm, 1, gap, mir]]))
    for v, s, a, b, at in ((1, 2, 14, 10, 0), (1, 3, 20, 12, 1), (2, 2, 16, 9, 2), (3, 2, 13, 11, 3), (5, 2, 25, 10, 0), (7, 2, 12, 20, 0), (1, 2, 40, 7, 0), (2, 3, 30, 9, 2),
                           # specks over the whole height of the symbol, more than there are regions for
                           (1, 3, 8, 50, 2), (1, 3, 8, 50, 3), (2, 3, 10, 60, 3), (3, 2, 9, 45, 2), (7, 2, 8, 70, 3), (1, 4, 60, 50, 2), (1, 4, 60, 50, 3), (2, 4, 45, 70, 3)):
        js.append(img("h_crowd", v, s, a, b, at, 2, seed, fam="crowd", falls=[[v, s, a, b, at, 1, seed]]))
    for n, s, s16, vm, mir, cols in ((8, 4, 32, 2, 1, 8), (8, 5, 48, 2, 1, 1), (8, 6, 32, 1, 0, 1), (12, 1, 32, 1, 1, 12), (20, 1, 32, 1, 1, 5)) + (
            () if tier == "quick" else ((30, 2, 32, 1, 1, 6), (24, 3, 32, 2, 0, 4), (40, 1, 32, 1, 0, 8))):
        js.append(img("h_multi", n, s, s16, 0, vm, 2, 0, mir, cols, fam="sheet8", secs=600, falls=[[n, s, s16, 0, vm, 1, 0, mir, cols], [n, s, s16, 0, vm, 0, 0, mir, cols]]))
    js.sort(key=lambda j: -j.params[0] * j.params[2])
    js.append(img("h_multi", 2, 1, 48, 1, 1, 0, 0, 1, fam="sheet2"))
    return js


# ---------------------------------------------------------------- C20
def c20(tier, seed):
    js = []
    n = 0
    for v, s in ((1, 48), (1, 96), (2, 32), (2, 64), (3, 48), (5, 48), (7, 32), (10, 32)):
        for i, (d, l) in enumerate(((0, 255), (20, 220), (60, 200), (80, 160), (10, 90), (140, 250), (3, 45), (150, 250))):
            for ramp in (0, 20, 40, 60):
                n += 1
                if tier == "quick" and n % 2 and s > 32:
                    continue
                how = 1 + n // 2 % 2
                head = [v, (d + v) % 4, (d + s) % 8, s, 0, n % 2, 0, 0, 0, 4]
                tail = [d + v, 3 if d == 150 else 2, how, d, l, ramp]  # 3: decoding only
                js.append(img("h_detect", *head, 2, *tail, 0, fam=f"light{how}", falls=[[*head, 1, *tail, 0]]))
    js.sort(key=lambda j: -j.params[0] * j.params[3])
    return js


SPECS = {
    "C01": dict(jobs=c01,
        bounds="all 40 versions x 4 levels, mask (version+level) mod 8 (all 8 masks for versions 1-2; thorough: all 8 everywhere); one byte segment that fills the symbol, every payload bit and every remainder module symbolic",
        outside="other (version, level, mask) combinations in quick; other segment kinds (C05); damaged symbols (C03)", assumptions=COMMON),
    "C02": dict(jobs=c02,
        bounds="all 32 format values, every pattern of at most 3 flipped format modules in one copy, the other copy arbitrary (15 symbolic bits); versions 1,2,7,40 for metadata, 1-9 for whole decodes",
        outside="other versions in quick; more than 3 flips in both copies beyond 'nearest codeword or error'", assumptions=COMMON),
    "C03": dict(jobs=c03,
        bounds="one error at any codeword with any value (V1, all levels; 8 value bits + position symbolic); up to floor(parity/2) errors at fixed position patterns (bursts, spread, seeded random) with 2..10 symbolic error-value bits; every existing parity length; every block of V5-Q/H, V8-Q, V10-L; blocks of padding codewords, zeros, ones and text",
        outside="error value combinations beyond the symbolic bits and position sets beyond the listed patterns for multi-error jobs", assumptions=COMMON),
    "C04": dict(jobs=c04,
        bounds="capacity+1..+3 codeword errors, 4..6 symbolic error-value bits per job, V1 all levels and V2-L, V3-H, V5-Q, V8-Q; V1 all levels: every scalar multiple of each polynomial that zeroes the first / last n syndromes (n above the capacity) or all but one of them; first, last short and last long blocks of padding codewords, zeros, ones and text",
        outside="other positions/values; results whose length differs from the original payload are only checked for the kind of outcome", assumptions=COMMON),
    "C05": dict(jobs=c05,
        bounds="versions 1,9,10,26,27,40 (all count-field widths and their boundaries) x 2 levels x {numeric, alphanumeric, byte, kanji} with 1..6 characters and symbol-filling counts, up to 3 symbolic units per segment (every digit triple, every character pair, every Shift JIS character), all bits after the terminator symbolic, ECI designators of 1-3 bytes symbolic, 30 segment sequences",
        outside="longer sequences, other versions in quick", assumptions=COMMON),
    "C06": dict(jobs=c06,
        bounds="version 1 all levels: symbolic windows of 10..14 bits at the start of the stream, after one segment of each kind, and sliding over the end of the symbol; versions 9,10,26,27,40 with an 8-bit window at the start; surrounding bits noise/zero/one",
        outside="simultaneously symbolic bits beyond the windows; content the standard leaves undefined is only checked for absence of panics and a listed outcome", assumptions=COMMON),
    "C07": dict(jobs=c07,
        bounds="versions 1-20 and multiples of 4, 4..8 symbolic payload bits per transposed symbol; unreadable symbols: 12 format words covering the four (upright, mirrored) readability combinations, 4 symbolic data modules; transposed symbols of all 32 format values with any one or two format modules flipped in both copies",
        outside="payload bits beyond the symbolic ones", assumptions=COMMON),
    "C08": dict(jobs=c08,
        bounds="12 messages over all segment kinds, writers accepting 1,2,3 or 64 bytes per call, failing (error, zero-length write, broken pipe) at a symbolic byte count 0..127, or interrupted at every other call",
        outside="messages longer than 127 bytes", assumptions=COMMON),
    "C09": dict(jobs=c09,
        bounds="1..4 adjacent symbolic bytes (all 2^32 values) at several offsets of messages of 1..183 bytes",
        outside="more than 4 non-ASCII bytes", assumptions=COMMON),
    "C10": dict(jobs=c10,
        bounds="every grid size 0..20 and 12 sizes 21..63 with every module symbolic for raw reading; every 64-bit size that no version has (symbolic), sizes around powers of two up to 2^64-1; full decode of noise grids of size 21..180 with 3 symbolic format bits or 5 symbolic data modules",
        outside="full decode of grids with all modules symbolic", assumptions=COMMON),
    "C11": dict(jobs=c11,
        bounds="all 40 versions (one level and mask each in quick; all in thorough), every data module symbolic, every bit of the result and of the unused tail compared",
        outside="other level/mask combinations in quick", assumptions=COMMON),
    "C12": dict(jobs=c12,
        bounds="grid sizes 0..33 and up to 300 with every module symbolic; Version::from_size for all 2^64 sizes; RawData::push up to its full capacity",
        outside="larger grids", assumptions=COMMON),
    "C13": dict(jobs=c13,
        bounds="21 image sizes 1x1..4200x1, 3x140 with 7 brightness patterns (random, two levels, ramps, flat, checkerboard), 8 or 16 symbolic brightness bits (one or two pixels with every value), every pixel of the result and of the area around the image compared with the documented rule, for prepare_from_greyscale and prepare",
        outside="other sizes; more than two pixels symbolic at once; sums that overflow 64 bits cannot occur", assumptions=COMMON + ["the threshold rule of the crate's documentation (95% of the mean of two running averages over an eighth of the width) is the intended one"]),
    "C14": dict(jobs=c14,
        bounds="12 image sizes up to 420 pixels with every pixel symbolic, images 300 to 66000 pixels wide or high with 200 symbolic pixels, empty images of three shapes; every position inside and 81 positions inside and outside the image per job",
        outside="images large in both directions", assumptions=COMMON),
    "C15": dict(jobs=c15,
        bounds="70 synthetic scenes in which grids are found, 40 random scenes, 6 symbols, 5 scenes with 126-280 regions; 2-5 symbolic pixels each (half of them on edges)",
        outside="other scenes; scenes larger than about 100x100 pixels (symbols: 200x200)", assumptions=COMMON),
    "C16": dict(jobs=c16,
        bounds="about 230 scenes (noise, locator patterns with dents, at the border, in strong perspective, too far apart, stretched, enormous; degenerate and empty images) with 0-6 symbolic pixels each",
        outside="other scenes; images beyond about 56000 pixels per side", assumptions=COMMON),
    "C17": dict(jobs=c17,
        bounds="symbols of versions 1-40 axis-parallel at 1-5 px per module and 70 placements (turned by any angle, mirrored, in perspective, slanted; 3.5-8 px per module); two symbolic data modules, or four symbolic pixels inside data modules, within half the correction capacity; up to 90 extra white pixels on any side; bitmap and unprepared image",
        outside="other placements; fewer than 3.5 px per module when turned (the detector's resolution limit, see DESIGN.md); lens distortion, blur", assumptions=COMMON),
    "C18": dict(jobs=c18,
        bounds="sheets of 2-9 symbols of versions 1-9 at quarter turns, any angle or upright, equal scale, rows and columns of 8-12 and a sheet of 20 symbols (thorough: 40), with 2 symbolic data modules in one of them; symbols next to 126-3150 small patterns that only look like candidates",
        outside="other arrangements; symbols whose locator patterns also line up with a neighbour's (known finding)", assumptions=COMMON),
    "C19": dict(jobs=c19,
        bounds="symbols of versions 1-40 axis-parallel at 1-5 px per module and the module-exact ones of 80 placements, one symbolic data module; the four reported corners in order within 7/4 module + 1.5 px of the symbol's corners",
        outside="tighter tolerance (the reported corners overshoot by one module by design)", assumptions=COMMON),
    "C20": dict(jobs=c20,
        bounds="versions 1-10 at 2-6 px per module, eight pairs of dark and light levels (contrast 42..255), four strengths of uneven lighting, noise of 5 grey levels, two symbolic data modules, prepare and prepare_from_greyscale",
        outside="stronger shadows, sharp shadow edges, turned symbols in grey", assumptions=COMMON),
}
