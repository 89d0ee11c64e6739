"""The queries of each property: harness entry, parameters (= the stated bounds), tier."""
def J(h, e, p=None, **kw):
    d = {"h": h, "e": e, "p": p or {}}; d.update(kw); return d
QUICK, THOROUGH = {}, {}
def q(prop, *js): QUICK.setdefault(prop, []).extend(js)
def t(prop, *js): THOROUGH.setdefault(prop, []).extend(js)

# ---------------------------------------------------------------- C01
for cfg in ("repo", "i0p0", "i1p1"):
    for e in ("w_popcount", "w_byte_counts", "w_bytes_sum", "w_reverse", "w_bit_position", "w_msb", "w_lsb", "w_same_msb", "w_fields"):
        q("C01", J("h_word", e, cfg=cfg, bounds="every 64-bit word"))
    for lo in range(0, 64, 16): q("C01", J("h_word", "w_select", {"lo": lo, "hi": lo + 15}, cfg=cfg, subst="popcount", cost=5, bounds="every 64-bit word, every valid k, answer in [lo, hi]"))
# ---------------------------------------------------------------- C22..C25
q("C22", J("h_util", "vb_round", {"off": 0}), J("h_util", "vb_round", {"off": 3}), J("h_util", "vb_seq", {"k": 2}, cost=5))
t("C22", J("h_util", "vb_round", {"off": 17}), J("h_util", "vb_seq", {"k": 3}, cost=9))
q("C23", *[J("h_util", "nib", {"n": n}) for n in (0, 1, 2, 3, 8, 9, 16, 17)])
t("C23", *[J("h_util", "nib", {"n": n}) for n in (31, 32, 64, 65)])
q("C24", J("h_util", "i2n"), J("h_util", "n2i"), J("h_util", "cdiv64", {"amax": 0xfff, "bhi": 31}), J("h_util", "cdiv32"), *[J("h_util", "cdivk", {"d": d}) for d in (1, 2, 8, 64, 512, 3, 7)])
q("C24", J("h_util", "cdivs", {"k": 1}, bounds="every dividend whose sum does not wrap, every power of two"), J("h_util", "cdivs", {"k": 3, "slo": 30, "shi": 62}, cost=3), J("h_util", "cdivs", {"k": 5, "slo": 40, "shi": 61}, cost=3), J("h_util", "cdivk", {"d": 0xffffffff}, cost=3), J("h_util", "cdivk", {"d": 0x100000001}, cost=3), J("h_util", "cdivk", {"d": 0xffffffffffffffff}), J("h_util", "cdivmix"))
t("C24", J("h_util", "cdivs", {"k": 0x100000001, "slo": 0, "shi": 31}, cost=9), J("h_util", "cdivs", {"k": 255, "slo": 32, "shi": 56}, cost=9), J("h_util", "cdivs", {"k": 3, "slo": 1, "shi": 29}, cost=9), J("h_util", "cdivk", {"d": 100}, cost=5))
q("C25", *[J("h_util", e, {"n": n, "trim": tr}) for e in ("ln_getline", "ln_iter") for n in (0, 1, 2, 3, 4) for tr in (0, 1)], *[J("h_util", "ln_buf", {"n": n}) for n in range(0, 6)])

# ---------------------------------------------------------------- C02..C06
for o in range(10):
    q("C02", J("h_bits", "bb_seq", {"op0": o, "depth": 1}, cost=5, bounds="start length 0..130, initial value, operation arguments and contents all symbolic"))
    t("C02", J("h_bits", "bb_seq", {"op0": o, "depth": 2}, T=1800, cost=50), J("h_bits", "bb_seq", {"op0": o, "depth": 3, "n0lo": 37, "n0hi": 37, "k0": 27}, T=1800, cost=50))
for n0 in (0, 37, 63, 64):
    for o in (0, 4, 5, 7, 8): q("C02", J("h_bits", "bb_seq", {"op0": o, "depth": 2, "n0lo": n0, "n0hi": n0}))
    for o in (1, 2, 3, 6):
        for k in ((1, 27, 64, 91) if n0 else (27, 64)): q("C02", J("h_bits", "bb_seq", {"op0": o, "depth": 2, "n0lo": n0, "n0hi": n0, "k0": k}))
for o in (1, 3, 6, 7): q("C02", J("h_bits", "bb_seq", {"op0": o, "depth": 3, "n0lo": 37, "n0hi": 37, "k0": 27, "k1": 63}, cost=20))
q("C03", *[J("h_bits", "bv_access", {"n": n}, cost=2) for n in (0, 1, 8, 63, 64, 65, 127, 128, 129, 200, 256)], *[J("h_bits", "bv_range", {"n": n, "from": f, "k": 7}) for n, f in ((0, 0), (1, 0), (10, 0), (64, 57), (65, 58), (70, 60), (128, 121), (129, 122), (130, 60))])
t("C03", *[J("h_bits", "bv_access", {"n": n}, cost=9) for n in (191, 192, 193, 320, 511, 512)], J("h_bits", "bv_range", {"n": 130, "from": 58, "k": 12}))
t("C04", *[J("h_bits", "bv_near", {"n": n, "kind": k}) for n in (512, 1024) for k in range(4)])
t("C05", *[J("h_bits", "en_seq", {"n": 200, "depth": 3, "conc": 0, "slo": a, "shi": a, "op0": o}, cost=9) for a in (0, 1, 31, 62, 63) for o in range(3)], *[J("h_bits", "en_seq", {"n": 200, "depth": 2, "conc": 0, "slo": a, "shi": a + 7}, cost=5) for a in range(0, 64, 8)])
t("C06", *[J("h_bits", "un_seq", {"n": 192, "depth": 3, "op0": o, "op1": p}, subst=True, cost=9) for o in range(3) for p in range(3)], J("h_bits", "un_skip0", {"n": 400}, subst=True))
q("C04", *[J("h_bits", "bv_near", {"n": n, "kind": k}) for n in (1, 64, 65, 200, 256) for k in range(4)])
q("C05", *[J("h_bits", "en_seq", {"n": n, "depth": 2, "conc": 0, "slo": a, "shi": a, "op0": o}, cost=3) for n in (65, 130, 200) for a in (0, 1, 33, 63, 64) for o in range(3) if a < n], *[J("h_bits", "en_seq", {"n": n, "depth": 3, "conc": 0, "slo": 63, "shi": 63, "op0": o}, cost=9) for n in (130,) for o in range(3)])
q("C06", *[J("h_bits", "un_seq", {"n": n, "depth": 2, "op0": o}, subst=True) for n in (64, 130, 192) for o in range(3)], *[J("h_bits", "un_skip0", {"n": n}, subst=True) for n in (64, 130, 192)])

# ---------------------------------------------------------------- C07, C08
FULL = 0xffffffffffffffff
for n in (0, 1, 63, 64, 65, 130, 511, 512, 513, 577, 1024, 1100): q("C07", J("h_rs", "rs_rank", {"n": n, "pat": 99, "hints": n % 4}, subst=True, bounds="every content of n bits, every position"))
for n, pat, win in ((4096, 2, (7, 8, 63, 62)), (4097, 1, (0, 15, 16, 64)), (5000, 3, (19, 20, 59, 78)), (3584, 5, (7, 8, 54, 55)), (20000, 4, (8, 100, 255, 312))):
    q("C07", J("h_rs", "rs_rank", dict({"n": n, "pat": pat, "hints": 3, "mask": FULL}, **{"w%d" % i: x for i, x in enumerate(win)}), subst=True, cost=3, bounds="skeleton `pat` of n bits with four fully symbolic words, every position"))
for h in (0, 3):
    for n in (1, 64, 65, 130, 511, 512, 513):
        q("C08", J("h_rs", "rs_select", {"n": n, "pat": 99, "hints": h}, subst=True, bounds="every content of n bits, every valid argument"), J("h_rs", "rs_select0", {"n": n, "pat": 99, "inv": 1, "hints": h}, subst=True, bounds="every content of n bits, every valid argument"))
for n in (1024, 1100):
    q("C08", J("h_rs", "rs_select", {"n": n, "pat": 99, "hints": 0}, subst=True, cost=9), J("h_rs", "rs_select0", {"n": n, "pat": 99, "inv": 1, "hints": 0}, subst=True, cost=9))
    for lo in (0, 6, 11, 14, 16): q("C08", J("h_rs", "rs_select", {"n": n, "pat": 99, "hints": 1, "clo": lo, "chi": {0: 5, 6: 10, 11: 13, 14: 15, 16: 99}[lo]}, subst=True, cost=20), J("h_rs", "rs_select0", {"n": n, "pat": 99, "inv": 1, "hints": 2, "clo": lo, "chi": {0: 5, 6: 10, 11: 13, 14: 15, 16: 99}[lo]}, subst=True, cost=20))
for n, pat, win in ((3000, 1, (7, 15, 16, 31)), (3000, 2, (7, 15, 16, 31)), (3000, 3, (15, 16, 20, 40)), (3584, 5, (7, 8, 15, 16)), (8192, 1, (15, 16, 31, 127)), (8200, 3, (0, 19, 60, 79)), (4096, 0, (7, 8, 15, 63)), (20000, 4, (8, 100, 255, 312)), (6000, 6, (20, 35, 36, 52))):
    for h in (0, 3):
        for e, inv in (("rs_select", 0), ("rs_select0", 1)): q("C08", J("h_rs", e, dict({"n": n, "pat": pat, "inv": inv, "hints": h, "mask": FULL}, **{"w%d" % i: x for i, x in enumerate(win)}), subst=True, cost=3, bounds="skeleton `pat` (complemented for select0) of n bits with four fully symbolic words, every valid argument"))
t("C07", *[J("h_rs", "rs_rank", {"n": n, "pat": 99}, subst=True) for n in (2048, 4097, 9000)])
t("C08", *[J("h_rs", e, {"n": 2100, "pat": 99, "inv": inv, "hints": h, "clo": c, "chi": c}, subst=True, T=1200) for c in range(33) for e, inv, h in (("rs_select", 0, 1), ("rs_select0", 1, 2))])

for pa, e, a in (("C07", "rs_rank", {"pat": 1, "hints": 3, "clo": 1022, "chi": 1030}), ("C07", "rs_rank", {"pat": 2, "hints": 0, "clo": 2180, "chi": 2188}), ("C08", "rs_select", {"pat": 1, "hints": 1, "clo": 1022, "chi": 1030}), ("C08", "rs_select", {"pat": 4, "hints": 0, "clo": 1022, "chi": 1030}), ("C08", "rs_select0", {"pat": 1, "inv": 1, "hints": 3, "clo": 2180, "chi": 2188}), ("C08", "rs_select0", {"pat": 1, "inv": 1, "hints": 0, "clo": 1022, "chi": 1024})):
    q(pa, J("h_rs", e, dict(a, n=140000, w0=1023, w1=1024, w2=2187, mask=FULL), subst=True, bounds="skeleton of n bits with three fully symbolic words, positions in words [clo, chi]"))
for pa, e, a in (("C07", "rs_rank", {}), ("C08", "rs_select", {"hints": 1}), ("C08", "rs_select0", {"inv": 1, "hints": 2})): q(pa, J("h_rs", e, dict(a, n=17000000, pat=1, w0=262143, w1=262144, clo=262143, chi=262144, mask=FULL), subst=True, cost=8, bounds="17 million bits, two fully symbolic words around position 2^24"))

def L(h, prop, tier, text, **kw):
    """one job per line: entry k=v ... [; time=secs] ; window words of 8 symbolic bits unless a mask is given"""
    for l in text.strip().splitlines():
        a = l.split(); p = {}; k2 = dict(kw)
        for x in a[1:]:
            k, v = x.split("="); v = int(v, 0)
            if k == "cost": k2["cost"] = v
            elif k == "T": k2["T"] = v
            else: p[k] = v
        tier(prop, J(h, a[0], p, **k2))
for w in range(10): q("C02", J("h_bits", "bb_big", {"what": w}), J("h_bits", "bb_big", {"n0": 1024, "n1": 2048, "what": w}))
q("C02", *[J("h_bits", "bb_big", p) for p in ({"n0": 0, "n1": 70000, "what": 0}, {"n0": 70001, "what": 3}, {"n0": 7, "n1": 70001, "what": 2}, {"n0": 65, "n1": 70001, "what": 1}, {"n0": 65536, "n1": 65536, "what": 0}, {"n0": 65530, "n1": 200, "what": 7}, {"n0": 70000, "c": 1093, "what": 4})])
# ---------------------------------------------------------------- C09, C10
for e in ("bp_close", "bp_open", "bp_enclose"):
    for n in (2, 8, 16, 24): e == "bp_enclose" and n == 2 or q("C09", J("h_bp", e, {"n": n, "style": 99, "hints": n % 4}, subst=True, cost=n / 4, bounds="every balanced sequence of n bits, every position"))
    t("C09", J("h_bp", e, {"n": 32, "style": 99}, subst=True, cost=30), J("h_bp", e, {"n": 40, "style": 99}, subst=True, cost=90, T=1800))
BPB = "balanced skeleton `style` of n bits whose masked window bits are symbolic (constrained to stay balanced); positions in words [clo, chi] symbolic"
L("h_bp", "C09", q, """
bp_close n=1000 style=0 w0=3 w1=11 cost=14
bp_close n=1000 style=2 w0=7 m0=0xff00000000000000 w1=8 m1=0xff00
bp_close n=2000 style=3 w0=3 w1=7 w2=8 w3=11 clo=2 chi=4 cost=20
bp_close n=2000 style=6 w0=3 w1=7 w2=8 clo=0 chi=3 cost=24
bp_close n=40000 style=5 w0=127 m0=0xff00000000000000 w1=128 w2=255 w3=384 clo=127 chi=127
bp_close n=40000 style=5 w0=0 w1=64 w2=128 w3=500 clo=0 chi=1 cost=13
bp_close n=40000 style=0 w0=127 w1=128 w2=500 m2=0xff00 w3=512 clo=126 chi=129 cost=14
bp_close n=90000 style=0 w0=300 w1=1000 w2=1050 w3=1100 clo=298 chi=301
bp_open n=1000 style=0 w0=3 w1=11 cost=12
bp_open n=1000 style=1 w0=0 w1=3 w2=7 w3=4 cost=34
bp_open n=1000 style=2 w0=7 m0=0xff00000000000000 w1=8 m1=0xff00 clo=7 chi=15
bp_open n=20000 style=4 w0=127 w1=128 w2=255 w3=200 clo=126 chi=129
bp_open n=40000 style=0 w0=127 w1=128 w2=500 m2=0xff00 w3=512 clo=498 chi=501
bp_enclose n=2000 style=3 w0=3 w1=7 w2=8 w3=11 cost=20
bp_enclose n=20000 style=4 w0=127 w1=128 w2=255 w3=200 clo=126 chi=129
bp_enclose n=20000 style=1 w0=0 m0=0xfe w1=127 w2=128 w3=250 clo=250 chi=250 cost=25
""", subst=True, bounds=BPB)
L("h_bp", "C09", t, """
bp_close n=2000 style=3 w0=3 w1=7 w2=8 w3=11 clo=7 chi=9 cost=44
bp_close n=2000 style=7 w0=4 m0=0xff w1=15 w2=20 clo=4 chi=4 cost=31
bp_close n=1000 style=1 w0=0 w1=3 w2=7 w3=4 cost=55
bp_close n=1000 style=2 w0=3 m0=0xff00000000000000 w1=4 m1=0xff w2=7 cost=25
bp_close n=20000 style=4 w0=127 w1=128 w2=255 w3=200 clo=126 chi=129 cost=100 T=600
bp_open n=2000 style=3 w0=3 w1=7 w2=8 w3=11 cost=48
bp_enclose n=40000 style=6 w0=0 w1=64 w2=128 w3=500 clo=500 chi=501 cost=58
bp_close n=2000 style=7 w0=4 m0=0xff w1=15 w2=20 w3=24 cost=200 T=900
""", subst=True, bounds=BPB)
for n in (2, 8, 16, 20): q("C10", J("h_bp", "bp_rmq", {"n": n, "style": 99, "part": 0}, subst=True, cost=n, bounds="every balanced sequence of n bits, every range"), J("h_bp", "bp_rmq", {"n": n, "style": 99, "part": 1}, subst=True, cost=n, bounds="every balanced sequence of n bits, every range"))
for n in (24, 32): t("C10", J("h_bp", "bp_rmq", {"n": n, "style": 99, "part": 0}, subst=True, cost=90, T=1200), J("h_bp", "bp_rmq", {"n": n, "style": 99, "part": 1}, subst=True, cost=90, T=1200))
L("h_bp", "C10", q, """
bp_excess n=24 style=99
bp_excess n=1000 style=2 w0=3 m0=0xff00000000000000 w1=4 m1=0xff w2=7
bp_excess n=20000 style=4 w0=127 w1=128 w2=255 w3=200
bp_rmq n=1000 style=2 w0=3 m0=0xf000000000000000 w1=4 m1=0xf clo=3 chi=3 blo=4 bhi=4 part=1 cost=42
bp_rmq n=1000 style=1 w0=4 m0=0xff clo=3 chi=3 blo=8 bhi=8 cost=15
bp_rmq n=1000 style=1 w0=4 m0=0xff clo=3 chi=3 blo=8 bhi=8 part=1 cost=10
bp_rmq n=2000 style=3 w0=3 w1=8 clo=3 chi=3 blo=3 bhi=12
bp_rmq n=2000 style=3 w0=3 w1=8 clo=3 chi=3 blo=3 bhi=12 part=1
bp_rmq n=2000 style=0 w0=3 w1=15 w2=16 clo=3 chi=3 blo=15 bhi=19 cost=12
bp_rmq n=2000 style=0 w0=3 w1=15 w2=16 clo=3 chi=3 blo=15 bhi=19 part=1
bp_rmq n=20000 style=4 w0=127 w1=128 clo=127 chi=127 blo=255 bhi=255 cost=45
bp_rmq n=20000 style=4 w0=200 w1=255 clo=127 chi=127 blo=255 bhi=256 part=1 cost=12
bp_rmq n=20000 style=4 w0=200 w1=255 clo=5 chi=5 blo=255 bhi=256
bp_rmq n=40000 style=6 w0=128 clo=127 chi=127 blo=256 bhi=256 cost=13
bp_rmq n=40000 style=5 w0=127 w1=128 w2=255 w3=384 clo=127 chi=127 blo=400 bhi=400 part=1 cost=10
bp_rmq n=90000 style=2 w0=127 w1=384 clo=3 chi=3 blo=1400 bhi=1400
bp_rmq n=90000 style=2 w0=200 w1=600 w2=1000 clo=3 chi=3 blo=1400 bhi=1400 part=1
""", subst=True, bounds=BPB)
L("h_bp", "C10", t, """
bp_rmq n=1000 style=2 w0=3 m0=0xf000000000000000 w1=4 m1=0xf clo=3 chi=3 blo=3 bhi=9 cost=98
bp_rmq n=2000 style=3 w0=3 w1=8 clo=3 chi=4 cost=80
bp_rmq n=2000 style=3 w0=3 w1=8 clo=3 chi=4 part=1 cost=68
bp_rmq n=20000 style=4 w0=127 w1=128 clo=127 chi=127 blo=255 bhi=256 part=1 cost=53
bp_rmq n=40000 style=5 w0=127 w1=128 w2=255 w3=384 clo=126 chi=127 blo=400 bhi=401 cost=64
bp_rmq n=40000 style=6 w0=3 w1=127 w2=128 clo=127 chi=127 blo=256 bhi=256 part=1 cost=200 T=900
bp_rmq n=1000 style=1 w0=0 w1=3 w2=7 w3=4 cost=300 T=1800
""", subst=True, bounds=BPB)

# ---------------------------------------------------------------- C11, C12
for e, n, via in (("ct_less", 1, 0), ("ct_less", 2, 2), ("ct_less", 3, 1), ("ct_less", 4, 0), ("ct_greater", 4, 2), ("ct_less", 5, 1), ("ct_greater", 5, 0), ("ct_default", 5, 0), ("ct_less", 6, 2)): q("C11", J("h_cart", e, {"n": n, "via": via}, subst=True, cost=4 ** n / 200, bounds="every array of n 64-bit values, every range"))
CTB = "skeleton `style` of n values with symbolic 64-bit values in [vlo, vhi] at s0..s3, every range with a in [alo, ahi], b in [blo, bhi]"
L("h_cart", "C11", q, """
ct_less n=300 style=3 s0=100 s1=101 s2=150 vhi=8 alo=90 ahi=99 blo=100 bhi=120 cost=22
ct_less n=300 style=2 s0=100 s1=101 s2=102 vlo=100 vhi=3000 alo=99 ahi=102 blo=100 bhi=104
ct_less n=3000 style=2 s0=1000 s1=1001 vlo=100 vhi=4000 alo=996 ahi=1003 blo=1000 bhi=1015 cost=10
ct_less n=3000 style=2 s0=1000 s1=1001 vlo=100 vhi=4000 alo=999 ahi=1002 blo=1056 bhi=1063 cost=8
ct_less n=3000 style=5 s0=1000 s1=1300 vhi=3 alo=999 ahi=1001 blo=1299 bhi=1301 cost=6
ct_less n=3000 style=7 s0=1490 s1=1510 vlo=1485 vhi=1515 alo=1489 ahi=1490 blo=1509 bhi=1511 cost=14
ct_greater n=3000 style=4 s0=1490 s1=1510 vhi=20 alo=1489 ahi=1490 blo=1509 bhi=1510
ct_greater n=3000 style=6 s0=1490 s1=1510 vlo=1480 vhi=1520 alo=1489 ahi=1490 blo=1509 bhi=1510 cost=29
ct_less n=20000 style=4 s0=4096 s1=12288 vhi=3 alo=4095 ahi=4095 blo=12289 bhi=12290
ct_less n=20000 style=2 s0=4096 s1=12288 vlo=0 vhi=300 alo=4095 ahi=4096 blo=12288 bhi=12289 cost=14
""", subst=True, bounds=CTB)
t("C11", J("h_cart", "ct_less", {"n": 7}, subst=True, T=1500, cost=150, bounds="every array of n 64-bit values, every range"))
L("h_cart", "C11", t, """
ct_less n=3000 style=2 s0=1000 s1=2000 vlo=0 vhi=4000 alo=999 ahi=1001 blo=1999 bhi=2001 cost=57
ct_less n=3000 style=0 s0=1000 s1=1300 vhi=3000 alo=998 ahi=1001 blo=1299 bhi=1302 T=900 cost=200
ct_less n=3000 style=1 s0=1000 s1=1300 vhi=3000 alo=998 ahi=1001 blo=1299 bhi=1302 T=900 cost=200
ct_less n=3000 style=6 s0=1490 s1=1510 vhi=3000 alo=1488 ahi=1490 blo=1509 bhi=1520 cost=68
ct_greater n=3000 style=4 s0=1490 s1=1510 vhi=50 alo=1488 ahi=1490 blo=1509 bhi=1512 cost=98
ct_less n=9000 style=3 s0=1490 s1=8010 vhi=50 alo=1488 ahi=1490 blo=8009 bhi=8012 cost=75
ct_less n=9000 style=4 s0=1490 s1=8010 vhi=50 alo=1488 ahi=1490 blo=8009 bhi=8012 T=900 cost=200
ct_less n=20000 style=6 s0=4096 s1=12288 vlo=5000 vhi=12300 alo=4095 ahi=4095 blo=12289 bhi=12290 T=900 cost=200
""", subst=True, bounds=CTB)
for n in (1, 2, 3, 4): q("C12", J("h_cart", "tk_vec", {"n": n}, subst=True, bounds="every array of n 64-bit values, every range, every k up to n + 1"))
L("h_cart", "C12", q, """
tk_vec n=5 cost=39
tk_vec n=6 vhi=1 cost=9
tk_vec n=200 style=4 s0=100 s1=110 vhi=20 alo=90 ahi=90 blo=120 bhi=120 klo=4 khi=4 cost=5
tk_vec n=200 style=3 s0=100 s1=110 vhi=20 alo=90 ahi=90 blo=120 bhi=120 klo=4 khi=4
tk_vec n=1200 style=4 s0=500 vhi=20 alo=480 ahi=481 blo=1100 bhi=1100 klo=3 khi=3
tk_ef n=1 vhi=0xfffffffffffffffe
tk_ef n=2 vhi=3 cost=9
tk_ef n=2 vhi=255 cost=37
tk_ef n=3 vhi=1 klo=3 khi=3 cost=50
""", subst=True, bounds="n values (skeleton `style`, symbolic ones in [0, vhi]), every range and k in the given bounds")
L("h_cart", "C12", t, """
tk_vec n=6 klo=6 khi=7 T=900 cost=200
tk_ef n=3 vhi=2 klo=3 khi=4 T=900 cost=200
tk_ef n=3 vhi=7 T=1800 cost=200
""", subst=True, bounds="n values (skeleton `style`, symbolic ones in [0, vhi]), every range and k in the given bounds")
# ---------------------------------------------------------------- C13, C14
DAB = "skeleton `style` of n bits with symbolic bits under mask mI of word wI, every index in [klo, khi]"
L("h_da", "C13", q, """
da_one n=0
da_zero n=0
da_one n=1 w0=0
da_zero n=1 w0=0
da_one n=16 w0=0 m0=0xffff cost=4
da_zero n=16 w0=0 m0=0xffff cost=5
da_one n=70 w0=0 m0=0xff00000000000000 w1=1
da_zero n=70 w0=0 m0=0xff00000000000000 w1=1
da_one n=64 style=0
da_zero n=64 style=0
da_one n=4000 style=0 w0=15 w1=16 m0=0xff00000000000000 klo=1020 khi=1025 cost=40
da_zero n=4000 style=1 w0=31 w1=32 m0=0xff00000000000000 klo=1000 khi=1050 cost=26
da_one n=4000 style=5 w0=31 w1=32 m0=0xff00000000000000 klo=1000 khi=1050 cost=41
da_one n=70000 style=7 w0=1023 m0=0xff00000000000000 w1=1024 m1=0xff klo=1000 khi=1040 cost=20
da_zero n=70000 style=7 w0=1023 m0=0xff00000000000000 w1=1024 m1=0xff klo=1000 khi=1040 cost=20
da_one n=120000 style=3 w0=1710 w1=1725 klo=1090 khi=1200 cost=30
da_zero n=120000 style=6 w0=15 w1=16 m0=0xff00000000000000 klo=1010 khi=1040 cost=11
da_one n=120000 style=10 w0=15 w1=1200 m0=0xff00000000000000 klo=990 khi=1040 cost=28
da_one n=120000 style=2 w0=1600 w1=1601 klo=1020 khi=1030 cost=6
da_zero n=4000 style=8 w0=15 w1=16 klo=5 khi=30
""", subst=True, bounds=DAB)
L("h_da", "C13", t, """
da_one n=24 w0=0 m0=0xffffff T=900 cost=100
da_zero n=24 w0=0 m0=0xffffff T=900 cost=100
da_zero n=4000 style=0 w0=15 w1=16 klo=1000 khi=1050 cost=89
da_one n=4000 style=0 w0=15 w1=16 klo=1000 khi=1050 cost=120 T=600
da_one n=4000 style=8 w0=15 w1=16 cost=41
da_one n=70000 style=7 w0=1023 m0=0xff00000000000000 w1=1024 m1=0xff klo=900 khi=1100 cost=28
da_zero n=120000 style=3 w0=1710 w1=1725 klo=1090 khi=1200 cost=28
""", subst=True, bounds=DAB)
D64 = "n appends; skips of the skeleton with symbolic skips in [slo, shi] (0..64) at s0..s2 (style 99: all), every index in [klo, khi]"
L("h_da", "C14", q, """
da_64 n=0
da_64 n=1 style=99
da_64 n=2 style=99
da_64 n=3 style=99 cost=6
da_64 n=4 style=99 slo=61
da_64 n=4 style=99 shi=3
da_64 n=6 style=99 shi=2
da_64 n=100 base=3 s0=60 cost=33
da_64 n=300 style=1 s0=63 s1=64 klo=60 khi=70 slo=60
da_64 n=300 style=2 s0=63 s1=127 klo=120 khi=130 slo=60 cost=46
da_64 n=1100 base=0 s0=1023 klo=1000 khi=1060 cost=31
da_64 n=1100 base=64 s0=1022 s1=1024 klo=1021 khi=1026 slo=60 cost=11
da_64 n=1100 base=64 s0=959 klo=957 khi=961 slo=62
""", subst=True, bounds=D64)
L("h_da", "C14", t, """
da_64 n=4 style=99 cost=150 T=900
da_64 n=130 base=0 s0=62 s1=64 klo=0 khi=129 cost=150 T=900
da_64 n=1100 style=1 s0=1023 klo=1021 khi=1026 cost=92
da_64 n=1100 base=64 s0=958 klo=955 khi=965 cost=150 T=900
da_64 n=1100 base=64 s0=1023 klo=1020 khi=1050 slo=48 cost=150 T=900
da_64 n=2200 base=64 s0=2047 klo=2046 khi=2049 slo=60 cost=40
""", subst=True, bounds=D64)

# ---------------------------------------------------------------- C15, C16, C17
EFB = "m values below universe n, all symbolic (style 99) or a skeleton with symbolic ones at s0..s2; symbolic index in [klo, khi] / argument in [plo, phi]"
L("h_ef", "C15", q, """
ef_select n=10 m=0
ef_select n=10 m=2 rank=1
ef_select n=64 m=3
ef_select n=1000 m=3
ef_select n=1000 m=8 cost=13
ef_select n=1 m=10
ef_select n=0xffffffffffffffff m=3
ef_select n=0x8000000000000000 m=1
ef_select n=0xffffffffffffffff m=1
ef_select n=0x100000000 m=5
ef_select n=200 m=70 style=2 s0=30 s1=60 xhi=199
ef_select n=100000 m=2100 style=1 s0=1050 klo=1048 khi=1052 xhi=2000
ef_select n=1000000000000 m=1500 style=1 s0=750 klo=748 khi=752 cost=30
ef_rank n=1 m=1
ef_rank n=10 m=3
ef_rank n=1000 m=6 cost=4
ef_rank n=0xffffffffffffffff m=3
ef_rank n=0xffffffffffffffff m=3 what=1
ef_rank n=0xffffffffffffffff m=3 what=2
ef_rank n=0xffffffffffffffff m=3 what=3
ef_rank n=0x8000000000000001 m=1 what=1
ef_rank n=0x100000000 m=6 what=1 cost=9
ef_rank n=0x100000000 m=6 what=2 cost=9
ef_rank n=1000000 m=6 what=3 cost=7
ef_rank n=200 m=70 style=2 s0=30 s1=60 plo=60 phi=120
ef_rank n=200 m=70 style=2 s0=30 s1=60 plo=60 phi=120 what=1
ef_rank n=200 m=70 style=2 s0=30 s1=60 plo=60 phi=120 what=2
ef_rank n=200 m=70 style=2 s0=30 s1=60 plo=60 phi=120 what=3
ef_rank n=1000000 m=300 style=4 s0=0 plo=999690 phi=999710 what=1 xlo=990000 cost=15
ef_rank n=30000 m=60 style=3 s0=51 plo=24990 phi=25600 what=0
ef_bits n=1 w0=0
ef_bits n=8 w0=0 cost=10
ef_bits n=8 w0=0 what=1 cost=10
ef_bits n=8 w0=0 what=2 cost=10
ef_bits n=64 style=0
ef_bits n=64 style=4 what=1
ef_bits n=200 style=3 w0=1 m0=0xf what=0 plo=60 phi=80 cost=16
ef_bits n=200 style=3 w0=1 m0=0xf what=1 plo=60 phi=80 cost=17
ef_bits n=200 style=3 w0=1 m0=0xf what=2 cost=13
""", subst=True, bounds=EFB)
L("h_ef", "C15", t, """
ef_select n=1000 m=12 cost=93
ef_select n=100000 m=2100 style=2 s0=1023 s1=1024 klo=1020 khi=1026 T=900 cost=150
ef_select n=200000 m=1100 style=4 s0=0 s1=1 klo=0 khi=3 T=900 cost=150
ef_rank n=100000 m=2100 style=2 s0=1023 plo=48700 phi=48760 what=1 T=900 cost=200
ef_rank n=100000 m=2100 style=2 s0=1023 plo=48700 phi=48760 what=0 T=900 cost=200
ef_rank n=1000 m=9 T=900 cost=100
ef_rank n=1000 m=9 what=1 T=900 cost=100
ef_bits n=10 w0=0 m0=0x3ff cost=46
ef_bits n=10 w0=0 m0=0x3ff what=1 cost=37
ef_bits n=12 w0=0 m0=0xfff what=2 cost=82
ef_bits n=2100 style=1 w0=15 m0=0xf000000000000000 what=2 klo=505 khi=515 T=900 cost=200
""", subst=True, bounds=EFB)
L("h_ef", "C16", q, """
ef_delta n=1000 m=3
ef_delta n=1 m=8
ef_delta n=0x100000000 m=4
ef_delta n=1000 m=7 cost=8
ef_delta n=0xffffffffffffffff m=4
ef_delta n=100000 m=210 style=1 s0=105 klo=103 khi=107 cost=8
ef_delta n=10000 m=130 style=4 s0=0 s1=1 klo=0 khi=3 cost=31
ef_pair n=1 m=8
ef_pair n=1000 m=6 cost=5
ef_pair n=0x100000000 m=4
ef_pair n=0xffffffffffffffff m=4
ef_pair n=0xffffffffffffffff m=2
ef_pair n=100000 m=210 style=1 s0=105 klo=103 khi=107 cost=8
ef_pair n=1000000 m=130 style=3 s0=60 s1=61
ef_enum n=10 m=0
ef_enum n=1 m=10
ef_enum n=20 m=10 cost=7
ef_enum n=100 m=6
ef_enum n=0x100000000 m=4
ef_enum n=0xffffffffffffffff m=1
ef_enum n=0xffffffffffffffff m=4
ef_enum n=1000 m=8 cost=20
ef_enum n=100000 m=300 style=1 s0=150 klo=148 khi=151 take=8 xhi=50000 cost=8
ef_enum n=30000 m=300 style=2 s0=150 klo=148 khi=151 take=8 cost=6
ef_enum n=3000000000 m=300 style=2 s0=150 klo=140 khi=151 take=20 cost=35
""", subst=True, bounds=EFB)
L("h_ef", "C16", t, """
ef_delta n=1000 m=10 cost=38
ef_delta n=100000 m=2100 style=2 s0=1023 s1=1024 klo=1022 khi=1026 T=600 cost=97
ef_delta n=1000000 m=130 style=4 s0=0 s1=1 cost=88
ef_pair n=100000 m=2100 style=2 s0=1023 s1=1024 klo=1022 khi=1026 T=600 cost=100
ef_pair n=1000000 m=130 style=4 s0=0 s1=1 cost=60
ef_enum n=0xffffffffffffffff m=10 cost=51
ef_enum n=20 m=20 T=900 cost=150
ef_enum n=30000 m=300 style=2 s0=150 klo=140 khi=155 take=40 T=900 cost=150
""", subst=True, bounds=EFB)
L("h_ef", "C17", q, """
efl m=0 S=0
efl m=1 S=0
efl m=1 S=0xfffffffffffffffe
efl m=3 S=10
efl m=3 S=0xfffffffffffffffe
efl m=4 S=1000
efl m=6 S=0x100000000000 cost=9
efl m=6 S=63
efl m=8 S=3
efl m=200 S=30000 style=1 s0=100 xhi=500 klo=99 khi=103
efl m=300 S=40000 style=0 s0=102 klo=100 khi=104 xhi=100
efl m=1100 S=10000 style=0 s0=1022 klo=1021 khi=1025 xhi=20
efc m=0
efc m=1
efc m=2 lhi=10
efc m=2 llo=28 lhi=36
efc m=2 llo=55 lhi=63
efc m=3 lhi=4 cost=4
efc m=3 llo=61
efc m=100 style=1 s0=50 llo=58 cost=11
""", subst=True, bounds="m integers; prefix-sum list: total S, compressed list: code lengths in [llo, lhi]; all symbolic (style 99) or a skeleton with symbolic ones at s0, s1; every index in [klo, khi]")
L("h_ef", "C17", t, """
efl m=8 S=100 cost=48
efl m=10 S=0x100000000000 T=900 cost=150
efc m=2 lhi=63 T=900 cost=150
efc m=3 lhi=12 T=900 cost=150
efc m=100 style=1 s0=50 s1=51 lhi=5 cost=83
""", subst=True, bounds="m integers; prefix-sum list: total S, compressed list: code lengths in [llo, lhi]; every index in [klo, khi]")

# ---------------------------------------------------------------- C18, C19
GAB = "m values, all symbolic (style 99) or a skeleton with symbolic ones at s0..s2; the symbolic ones have any code length in [llo, lhi] (0..63) and any low bits; index / start in [klo, khi]"
L("h_gamma", "C18", q, """
ga_vec m=0
ga_bit m=0
ga_vec m=1
ga_bit m=1
ga_vec m=2 lhi=10
ga_bit m=2 lhi=10
ga_vec m=2 llo=28 lhi=36
ga_vec m=2 llo=55
ga_bit m=2 llo=55
ga_vec m=3 lhi=3
ga_bit m=3 lhi=7
ga_vec m=3 llo=60
ga_bit m=3 llo=60
ga_vec m=4 lhi=2
ga_bit m=3 llo=30 lhi=34 cost=8
ga_vec m=200 style=0 s0=60 s1=62 lhi=9 klo=55 khi=70 cost=16
ga_bit m=200 style=0 s0=60 s1=62 lhi=9 klo=55 khi=70 cost=16
ga_bit m=200 style=0 s0=60 s1=62 llo=56 klo=55 khi=70 cost=11
ga_vec m=1100 style=2 s0=1023 klo=1020 khi=1026 cost=16
ga_bit m=1100 style=2 s0=1022 klo=1020 khi=1026 cost=9
ga_vec m=1100 style=1 s0=1022 klo=1000 khi=1060
ga_vec m=1100 style=0 s0=1022 klo=1020 khi=1030 cost=10
""", subst=True, bounds=GAB)
L("h_gamma", "C18", t, """
ga_vec m=2 T=900 cost=150
ga_bit m=2 T=900 cost=150
ga_bit m=3 llo=28 lhi=36 cost=45
ga_vec m=4 lhi=7 cost=100 T=900
""", subst=True, bounds=GAB)
L("h_gamma", "C19", q, """
fw_vec m=0
fw_bit m=0
fw_vec m=1
fw_bit m=1
fw_vec m=2 lhi=10
fw_bit m=2 lhi=10
fw_vec m=2 llo=28 lhi=36
fw_vec m=2 llo=55
fw_vec m=3 lhi=4
fw_vec m=3 llo=60
fw_bit m=3 lhi=5
fw_bit m=3 llo=60
fw_bit m=3 llo=30 lhi=34 cost=8
fw_efc m=2 lhi=6
fw_efc m=3 lhi=3
fw_map m=3 lhi=9
fw_skip m=4 lhi=3 cost=7
fw_skip m=3 llo=61
fw_skip m=100 style=0 s0=50 klo=44 khi=45 smax=6 lhi=20 cost=20
fw_vec m=200 style=0 s0=60 s1=62 lhi=9 klo=58 khi=60 take=10 cost=20
fw_bit m=200 style=0 s0=60 s1=62 llo=56 klo=55 khi=60 take=30
fw_vec m=300 style=2 s0=64 klo=55 khi=60 take=30 cost=6
fw_vec m=300 style=1 s0=64 s1=130 klo=60 khi=60 take=80 lhi=2 cost=20
fw_bit m=300 style=1 s0=70 klo=60 khi=64 take=80 cost=20
""", subst=True, bounds=GAB)
L("h_gamma", "C19", t, """
fw_vec m=2 T=900 cost=150
fw_bit m=3 llo=28 lhi=36 cost=44
fw_map m=7 cost=100 T=300
fw_skip m=100 style=0 s0=50 klo=40 khi=45 smax=6 T=900 cost=150
fw_vec m=200 style=0 s0=60 s1=62 lhi=9 klo=55 khi=60 take=30 T=900 cost=150
fw_vec m=300 style=1 s0=64 s1=130 klo=60 khi=64 take=100 lhi=8 T=900 cost=150
""", subst=True, bounds=GAB)

# ---------------------------------------------------------------- C20, C21, C26, C27, C28
KB = "structure kind and size as given (harness/kits.h), contents and query arguments symbolic"
L("h_map", "C20", q, """
mp_bit n=70
mp_bit n=64 deep=1 what=0
mp_rs n=70
mp_rs n=600 what=1
mp_rs n=130 warm=1 how=1 fflags=77 what=1
mp_bp n=16
mp_bp n=600 full=0
mp_bp n=8192 full=0 what=3
mp_da1 n=64
mp_da0 n=64
mp_da1 n=3000 pat=1 klast=1 cost=20
mp_da1 n=90000 sparse=1 klast=1
mp_d64 n=3
mp_d64 n=1100 base=5
mp_ef n=3
mp_ef n=3 rank=0
mp_ef n=64 U=1000
mp_ef n=64 U=1000 what=1
mp_efl n=3
mp_efl n=20
mp_efc n=2
mp_efc n=40
mp_gv n=2
mp_gb n=2
mp_gv n=70 what=1
mp_ct n=3
mp_ct n=4
mp_tkv n=3
mp_tke n=2 vmax=3
mp_nib n=3
mp_nib n=3 warm=1 how=1
mp_v64 n=3
mp_v16 n=3
mp_v16 n=5 warm=1 how=1 fflags=1
mp_v8 n=3
mp_v8 n=9
mp_bit n=0
mp_rs n=0
mp_bp n=0
mp_da1 n=0
mp_d64 n=0
mp_ef n=0
mp_efl n=0
mp_efc n=0
mp_gv n=0
mp_gb n=0
mp_nib n=0
mp_v64 n=0
rm_bit n=70 n2=130
rm_rs n=70 n2=600
rm_bp n=16 n2=10
rm_da1 n=64 n2=130
rm_ef n=3 n2=12
rm_efl n=2 n2=3
rm_efc n=2 n2=1
rm_gv n=2 n2=1
rm_ct n=3 n2=4
rm_tkv n=3 n2=2
rm_nib n=2 n2=3
rm_v64 n=2 n2=3
""", subst=True, bounds=KB)
L("h_map", "C26", q, """
sw_bit n=70 n2=130
sw_bit n=64 n2=0
sw_rs n=70 n2=600
sw_bp n=16 n2=10
sw_bp n=0 n2=16
sw_da1 n=64 n2=130
sw_da0 n=64 n2=130
sw_d64 n=2 n2=1
sw_ef n=3 n2=12
sw_ef n=12 n2=2 rank=0
sw_efl n=2 n2=3
sw_efl n=0 n2=3
sw_efc n=2 n2=1
sw_efc n=2 n2=3 lhi=2
sw_gv n=2 n2=1
sw_gb n=2 n2=1
sw_gv n=2 n2=3 lhi=2
sw_gb n=2 n2=3 lhi=2
sw_ct n=3 n2=4 cost=20
sw_tkv n=3 n2=2
sw_tke n=2 n2=1 vmax=3
sw_nib n=2 n2=3
sw_v64 n=2 n2=3
sw_v16 n=2 n2=3
sw_v8 n=2 n2=3
dp_bit n=70 n2=130
dp_rs n=70 n2=600
dp_bp n=16 n2=10
dp_da1 n=64 n2=130
dp_da0 n=64 n2=130
dp_d64 n=2 n2=1
dp_ef n=3 n2=12
dp_efl n=2 n2=3
dp_efc n=2 n2=1
dp_gv n=2 n2=1
dp_gb n=2 n2=1
dp_ct n=3 n2=4 cost=20
dp_tkv n=3 n2=2
dp_tke n=2 n2=1 vmax=3
dp_nib n=2 n2=3
dp_v64 n=2 n2=3
dp_v16 n=2 n2=3
dp_v8 n=2 n2=3
""", subst=True, bounds=KB)
L("h_map", "C27", q, """
ex_bit n=64 deep=1 what=0
ex_bit n=64 deep=1 what=8
ex_bit n=64 deep=1 what=7
ex_bit n=128 deep=1 what=1
ex_bit n=128 deep=1 what=2
ex_bit n=128 deep=1 what=3
ex_bit n=128 deep=1 what=4
ex_bit n=128 deep=1 what=5
ex_bit n=128 deep=1 what=6
ex_bit n=128 deep=1 what=7 full=0 cost=20
ex_bit n=129 deep=1 what=8
ex_bit n=127 deep=1 what=8
ex_rs n=512
ex_rs n=512 what=1
ex_rs n=512 what=2
ex_rs n=1024 what=1 full=0 cost=8
ex_rs n=1024
ex_rs n=4096 full=0 cost=5
ex_bp n=16 what=3
ex_bp n=16 what=4
ex_bp n=256 what=3 full=0
ex_bp n=8192 what=3 full=0
ex_bp n=16384 what=3 full=0
ex_bp n=256 what=4 full=0 span=9
ex_bp n=8192 what=4 full=0 span=7
ex_da1 n=1024 pat=1 klast=1 cost=30
ex_da0 n=1024 pat=1 klast=1 cost=30
ex_da1 n=1280 sparse=1
ex_d64 n=64
ex_d64 n=65
ex_d64 n=1024 base=64
ex_d64 n=1025 base=3
ex_ef n=3
ex_ef n=3 what=1
ex_ef n=3 what=2
ex_ef n=3 what=3
ex_ef n=3 what=4
ex_ef n=64 U=1000
ex_ef n=64 U=1000 what=1
ex_ef n=64 U=1000 what=4
ex_efl n=3
ex_efc n=2
ex_gv n=64
ex_gb n=64
ex_gv n=64 what=1
ex_gb n=64 what=1
ex_gv n=2 llo=60 lhi=63
ex_gb n=2 llo=60 lhi=63
ex_gv n=2 llo=60 lhi=63 what=1
ex_gb n=2 llo=60 lhi=63 what=1
ex_ct n=4
ex_tkv n=3
ex_tke n=2 vmax=3
ex_nib n=2
mp_bit n=64 deep=1 what=0
mp_bit n=64 deep=1 what=8
mp_rs n=512
mp_rs n=512 what=1
mp_bp n=256 what=3 full=0
mp_nib n=16
mp_v8 n=8
mp_v16 n=4
""", subst=True, bounds=KB + "; every array in a heap block of exactly its size")
L("h_map", "C28", q, "\n".join("sz_%s n=%d" % (k, n) for k, ns in (("bit", (0, 1, 64, 70)), ("rs", (0, 70, 600)), ("bp", (0, 16)), ("da1", (0, 64)), ("da0", (64,)), ("d64", (0, 3, 1100)), ("ef", (0, 3)), ("efl", (0, 3)), ("efc", (0, 2)), ("gv", (0, 2)), ("gb", (0, 2)), ("ct", (3,)), ("tkv", (3,)), ("tke", (2,)), ("nib", (0, 3)), ("v64", (0, 3)), ("v16", (0, 3)), ("v8", (0, 3))) for n in ns), subst=True, bounds=KB)
MVB = "two mappable vectors, operations (9 kinds), target, lengths 0..max and contents symbolic"
L("h_mv", "C21", q, """
mv_8 depth=1
mv_8 depth=2
mv_16 depth=2
mv_64 depth=2
mv_i depth=2
mv_64 depth=2 each=1 max=3
mv_live
""" + "\n".join("mv_64 depth=3 max=1 op0=%d cost=2" % o for o in range(9)) + "\n" + "\n".join("mv_16 depth=3 op0=%d cost=20" % o for o in (1, 5, 7)), bounds=MVB)
L("h_mv", "C21", t, "\n".join("mv_16 depth=3 op0=%d cost=20 T=600" % o for o in (0, 2, 3, 4, 6, 8)) + "\n" + "\n".join("mv_8 depth=4 max=1 op0=%d op1=%d cost=60 T=1200" % (o, p) for o in range(9) for p in (1, 5, 7)), bounds=MVB)

# ---------------------------------------------------------------- widths 0..63 of the low part, concrete buckets
EFL = "m values, every low-part width 0..63, four bucket layouts, every low part symbolic (and the argument, within each bucket)"
L("h_ef", "C15", q, """
ef_low m=100 what=0 cost=5
ef_low m=5 what=1
ef_low m=10 what=1 cost=15
ef_low m=5 what=2 hhi=1 cost=12
ef_low m=5 what=3 hhi=1 cost=12
ef_low m=5 what=4 cost=8
ef_rank n=1000000 m=300 style=4 plo=999690 phi=1000000
ef_rank n=1000000 m=300 style=4 plo=999690 phi=1000000 what=1
ef_rank n=1000000 m=300 style=4 plo=999690 phi=1000000 what=2 cost=6
ef_rank n=1000000 m=300 style=4 plo=999690 phi=1000000 what=3 cost=5
ef_rank n=30000 m=300 style=3 plo=0 phi=30000 cost=16
""", subst=True, bounds=EFL)
L("h_ef", "C15", t, """
ef_low m=300 what=0 T=600 cost=60
ef_low m=12 what=4 T=600 cost=65
ef_low m=5 what=2 T=600 cost=65
ef_low m=5 what=3 T=900 cost=120
ef_low m=40 what=1 T=1200 cost=200
ef_low m=12 what=2 T=1800 cost=200
""", subst=True, bounds=EFL)
L("h_ef", "C16", q, """
ef_low m=100 what=5 cost=6
ef_low m=100 what=6 cost=6
ef_low m=12 what=7 cost=3
ef_low m=40 what=7 cost=15
""", subst=True, bounds=EFL)
L("h_ef", "C16", t, "ef_low m=100 what=7 cost=90 T=600\nef_low m=500 what=5 cost=90 T=600\nef_low m=500 what=6 cost=90 T=600", subst=True, bounds=EFL)
L("h_cart", "C12", q, "tk_reuse n=2\ntk_reuse n=3 cost=6", subst=True, bounds="array of n symbolic values, three ranges and the number of steps symbolic")
L("h_cart", "C12", t, "tk_reuse n=4 vhi=1 cost=90 T=600", subst=True, bounds="array of n symbolic values, three ranges and the number of steps symbolic")
L("h_map", "C27", q, "ex_gv n=21 what=2\nex_gb n=31 what=2\nex_gv n=0 what=2\nex_gb n=0 what=2\nex_efc n=3 what=2 lhi=2\nex_gv n=20 what=2 lhi=8\nex_efl n=3 what=2\nex_efc n=0 what=2", subst=True, bounds=KB + "; an enumerator constructed at the end")
L("h_gamma", "C19", q, "fw_skip m=200 style=0 s0=100 klo=30 khi=31 smax=170 steps=1 lhi=3 cost=10\nfw_skip m=200 style=0 klo=0 khi=200 smax=200 steps=1 cost=6", subst=True, bounds=GAB)
L("h_gamma", "C19", t, "fw_skip m=200 style=0 s0=100 klo=30 khi=30 smax=70 steps=2 lhi=3 cost=45 T=600", subst=True, bounds=GAB)
L("h_map", "C20", q, "mp_bp n=40000 full=0 what=3 cost=20\nmp_bp n=40000 full=0 what=4 span=9 cost=20", subst=True, bounds=KB)
L("h_map", "C26", q, "sw_bp n=600 n2=40000 full=0 what=3 cost=20", subst=True, bounds=KB)

# ---------------------------------------------------------------- longer instances: concrete skeleton, symbolic windows
WB = "skeleton `pat` of n bits whose masked window bits (words w0..w3) are symbolic; arguments symbolic in the given ranges"
q("C03", J("h_bits", "bv_range", {"n": 70, "from": 58, "k": 8, "vhi": 255}, bounds="any non-zero byte is a one"), J("h_bits", "bv_range64", {"n": 130, "from": 60, "k": 7}, bounds="any non-zero 64-bit element is a one"))
L("h_bits", "C03", q, """
bv_access n=5000 pat=2 w0=15 w1=16 w2=31 plo=1000 phi=1100 cost=2
bv_access n=70000 pat=2 w0=1023 w1=1024 plo=65500 phi=65600 cost=3
""", bounds=WB)
L("h_bits", "C03", t, """
bv_access n=5000 pat=2 w0=15 w1=16 w2=31 mask=0xffffffffffffffff plo=1000 phi=2100 cost=40 T=600
bv_access n=70000 pat=2 w0=1023 w1=1024 mask=0xffffffffffffffff plo=65000 phi=66000 cost=43 T=600
""", bounds=WB)
L("h_bits", "C04", q, "\n".join("bv_near n=700 kind=%d cost=2\nbv_near n=2000 pat=%d w0=3 w1=29 kind=%d mask=0xffffffffffffffff" % (k, 1 - (k & 1), k) for k in range(4)), bounds=WB)
L("h_bits", "C04", t, "\n".join("bv_near n=1500 kind=%d cost=50 T=600" % k for k in range(4)), bounds="every content of n bits, every position")
L("h_bits", "C05", q, """
en_seq n=2000 pat=0 w0=1 w1=20 w2=21 depth=3 slo=60 shi=60 op0=2 op1=2 conc=0 mask=0xc000000000000003
en_seq n=2000 pat=0 w0=1 w1=20 w2=21 depth=3 slo=64 shi=64 op0=2 op1=1 conc=0 mask=0xc000000000000003
en_seq n=2000 pat=0 w0=1 w1=20 w2=21 depth=2 slo=0 shi=2 op0=2 conc=0 mask=0xc000000000000003
en_seq n=2000 pat=3 w0=1 w1=20 w2=21 depth=3 slo=62 shi=65 op0=2 op1=2 conc=0 mask=0xc000000000000003
en_seq n=2000 pat=3 w0=1 w1=20 w2=21 depth=3 slo=1278 shi=1282 op0=1 op1=2 conc=0 mask=0xc000000000000003
""", bounds=WB)
L("h_bits", "C05", t, "en_seq n=2000 pat=0 w0=1 w1=20 w2=21 depth=3 slo=1 shi=1 op0=1 op1=2 conc=0 mask=0xffffffffffffffff cost=27 T=600", bounds=WB)
L("h_bits", "C06", q, """
un_skip0 n=2000 pat=0 w0=1 w1=20 w2=21 aw=20 zw=20 whi=21 mask=0xffffffffffffffff cost=13
un_skip0 n=2000 pat=2 w0=1 w1=20 w2=21 aw=20 zw=20 whi=21 mask=0xffffffffffffffff cost=14
un_seq n=2000 pat=0 w0=1 w1=20 w2=21 sw=0 aw=20 zw=21 whi=21 depth=2 mask=0xc000000000000003 cost=22
un_seq n=2000 pat=1 w0=1 w1=20 w2=21 aw=19 zw=20 whi=21 depth=1 mask=0xffffffffffffffff cost=17
""", subst=True, bounds=WB)
L("h_bits", "C06", t, """
un_seq n=2000 pat=1 w0=1 w1=20 w2=21 aw=19 zw=20 whi=21 depth=2 mask=0xc000000000000003 cost=100 T=900
un_seq n=4000 pat=3 w0=19 w1=60 sw=19 aw=60 zw=60 whi=61 depth=2 mask=0xc000000000000003 cost=100 T=900
""", subst=True, bounds=WB)
q("C23", J("h_util", "nib", {"n": 600}), J("h_util", "nib", {"n": 3000}, cost=4))
q("C25", *[J("h_util", e, {"n": 3, "pre": p, "trim": tr}, cost=2, bounds="`pre` ordinary characters, then n symbolic bytes") for e in ("ln_getline", "ln_iter") for p in (65533, 65534) for tr in (0, 1)], J("h_util", "ln_getline", {"n": 2, "pre": 131069, "trim": 0}, cost=2), J("h_util", "ln_buf", {"n": 3, "pre": 300}), J("h_util", "ln_buf", {"n": 3, "pre": 65534}, cost=3))

L("h_bp", "C09", q, """
bp_close n=150000 style=5 w0=31 w1=640 clo=30 chi=31 cost=2
bp_close n=150000 style=0 w0=300 w1=2050 clo=298 chi=301 cost=9
bp_close n=300000 style=0 w0=3 w1=4600 clo=2 chi=4 cost=4
bp_open n=150000 style=0 w0=300 w1=2050 clo=2040 chi=2052 cost=13
bp_enclose n=150000 style=6 w0=0 w1=700 w2=2000 clo=2000 chi=2001 cost=27
""", subst=True, bounds=BPB)
L("h_bp", "C10", q, """
bp_rmq n=150000 style=6 w0=128 clo=127 chi=127 blo=2300 bhi=2300 cost=16
bp_rmq n=150000 style=2 w0=127 w1=384 clo=3 chi=3 blo=2300 bhi=2300
bp_rmq n=150000 style=2 w0=200 w1=600 w2=1000 clo=3 chi=3 blo=2300 bhi=2300 part=1
bp_rmq n=300000 style=2 w0=200 w1=600 w2=3000 clo=3 chi=3 blo=4600 bhi=4600
bp_rmq n=150000 style=5 w0=200 w1=600 w2=1000 clo=3 chi=3 blo=2300 bhi=2300
bp_rmq n=150000 style=0 w0=200 w1=600 w2=2200 clo=3 chi=3 blo=2300 bhi=2300
bp_excess n=150000 style=0 w0=200 w1=600 w2=2200 cost=14
""", subst=True, bounds=BPB)
L("h_cart", "C11", q, """
ct_less n=40000 style=0 s0=36000 vlo=35990 vhi=36010 alo=5 ahi=5 blo=36001 bhi=36002 cost=4
ct_less n=40000 style=0 s0=36000 vlo=3 vhi=6 alo=5 ahi=5 blo=36001 bhi=36002
ct_greater n=40000 style=1 s0=36000 vlo=3990 vhi=4010 alo=5 ahi=5 blo=36001 bhi=36002
ct_less n=80000 style=7 s0=70000 vlo=9990 vhi=10010 alo=69998 ahi=69998 blo=70003 bhi=70004 cost=7
ct_less n=80000 style=6 s0=70000 vlo=39999 vhi=40003 alo=8 ahi=8 blo=70003 bhi=70004
""", subst=True, bounds=CTB)
L("h_cart", "C12", q, """
tk_vec n=3000 style=4 s0=500 vhi=20 alo=480 ahi=480 blo=2900 bhi=2900 klo=4 khi=4 cost=17
tk_vec n=200 style=2 s0=100 vhi=0xfffff alo=80 ahi=80 blo=120 bhi=120 klo=8 khi=8 cost=9
""", subst=True, bounds="n values (skeleton `style`, symbolic ones in [0, vhi]), every range and k in the given bounds")

L("h_cart", "C26", q, "tk_eswap n=2\ntk_eswap n=3 vhi=1 cost=5", subst=True, bounds="arrays, ranges and the number of steps taken by each enumerator symbolic")
L("h_cart", "C26", t, "tk_eswap n=3 cost=9", subst=True, bounds="arrays, ranges and the number of steps taken by each enumerator symbolic")
L("h_bits", "C26", q, "bb_swap op0=0 op1=0 cost=2\nbb_swap op0=0 op1=1 blo=64 bhi=64\nbb_swap op0=3 op1=2 ext=70 cost=20\nbb_swap ahi=0 op1=7 cost=4", bounds="two builders of symbolic lengths and contents, then one operation on each")
L("h_bits", "C26", t, "bb_swap cost=50 T=600", bounds="two builders of symbolic lengths and contents, then one operation on each")

# ---------------------------------------------------------------- C29, C30
L("h_map", "C29", q, """
pu_bit n=0
pu_bit n=70
pu_bit n=64 deep=1 what=0
pu_bit n=128 deep=1 what=1 cost=5
pu_bit n=128 deep=1 what=2 cost=7
pu_bit n=128 deep=1 what=3 cost=6
pu_bit n=128 deep=1 what=4 cost=4
pu_bit n=128 deep=1 what=5 cost=10
pu_bit n=128 deep=1 what=6 cost=4
pu_bit n=65 deep=1 what=7 full=0
pu_bit n=192 deep=1 what=5 full=0
pu_bit n=129 deep=1 what=8
pu_rs n=0
pu_rs n=512
pu_rs n=512 what=1 cost=4
pu_rs n=512 what=2 cost=4
pu_rs n=512 what=1 hints=0 cost=4
pu_rs n=4096 full=0 cost=18
pu_bp n=0
pu_bp n=16 what=3
pu_bp n=16 what=4
pu_bp n=8192 what=3 full=0 cost=4
pu_bp n=40000 what=3 full=0 cost=4
pu_bp n=8192 what=4 full=0 span=7
pu_da1 n=0
pu_da1 n=64
pu_da0 n=64
pu_da1 n=1280 sparse=1
pu_da1 n=1024 pat=1 klast=1 cost=31
pu_d64 n=3 cost=9
pu_d64 n=65
pu_d64 n=1025 base=3
pu_ef n=0
pu_ef n=3
pu_ef n=3 what=1 cost=3
pu_ef n=3 what=2
pu_ef n=3 what=3
pu_ef n=3 what=4
pu_ef n=64 U=1000 what=1 cost=2
pu_efl n=0
pu_efl n=3
pu_efl n=3 what=1
pu_efc n=2
pu_efc n=2 what=1
pu_gv n=0
pu_gv n=3 cost=3
pu_gb n=3 cost=3
pu_gv n=64 what=1 cost=2
pu_gb n=64 what=1
pu_gv n=2 llo=60 lhi=63
pu_gb n=2 llo=60 lhi=63
pu_ct n=4 cost=2
pu_tkv n=3
pu_tke n=2 vmax=3 cost=4
pu_nib n=0
pu_nib n=9
pu_v64 n=3
pu_v16 n=3
pu_v8 n=3
""", subst=True, bounds=KB + "; image, object and globals read-only while queries run")
L("h_map", "C29", t, "pu_bit n=128 deep=1 what=7 full=0 cost=46 T=300\npu_rs n=1024 what=1 full=0 hints=0 cost=29\npu_tke n=2 cost=13\npu_bp n=24 what=3 cost=20\npu_bp n=24 what=4 cost=20\npu_ct n=5 cost=20", subst=True, bounds=KB + "; image, object and globals read-only while queries run")
L("h_map", "C30", q, """
dt_bit n=3 what=1
dt_rs n=3 what=1
dt_bp n=3 what=1
dt_da1 n=3 what=1
dt_da0 n=3 what=1
dt_d64 n=3 what=1
dt_ef n=3 what=1
dt_efl n=3 what=1
dt_efc n=3 what=1
dt_gv n=3 what=1
dt_gb n=3 what=1
dt_ct n=3 what=1
dt_tkv n=3 what=1
dt_tke n=3 what=1
dt_nib n=3 what=1
dt_v64 n=3 what=1
dt_v16 n=3 what=1
dt_v8 n=3 what=1
dt_bit n=0
dt_rs n=0
dt_bp n=0
dt_da1 n=0
dt_da0 n=0
dt_d64 n=0
dt_ef n=0
dt_efl n=0
dt_efc n=0
dt_gv n=0
dt_gb n=0
dt_nib n=0
dt_v64 n=0
dt_v16 n=0
dt_v8 n=0
dt_bit n=70
dt_bit n=200
dt_rs n=130
dt_rs n=600
dt_rs n=1100 full=0
dt_bp n=16
dt_bp n=8192 full=0
dt_bp n=20000 full=0
dt_da1 n=64
dt_da0 n=64
dt_da1 n=90000 sparse=1
dt_da1 n=1100 pat=1 cost=15
dt_d64 n=3 cost=3
dt_d64 n=1100 base=5
dt_ef n=3
dt_ef n=3 rank=0
dt_ef n=12
dt_ef n=64 U=1000
dt_efl n=3
dt_efl n=20
dt_efc n=2
dt_efc n=3 cost=7
dt_efc n=40
dt_gv n=3 cost=3
dt_gb n=3
dt_gv n=70
dt_gb n=70
dt_ct n=3
dt_ct n=4
dt_tkv n=3
dt_tke n=2 vmax=3
dt_nib n=3
dt_nib n=9
dt_v64 n=3
dt_v16 n=5
dt_v8 n=9
""", subst=True, bounds=KB + "; memory undefined before construction holds arbitrary bytes, different each time")
L("h_map", "C30", t, "dt_da1 n=3000 pat=1 cost=41 T=300\ndt_tke n=3 cost=23\ndt_ct n=6 cost=20\ndt_bp n=40000 full=0\ndt_rs n=1024", subst=True, bounds=KB + "; memory undefined before construction holds arbitrary bytes, different each time")

KBM = KB + "; the file mapped through boost's mapped_file_source (stub: a block of exactly the file's bytes)"
L("h_map", "C20", q, "mf_rs n=600\nmf_rs n=0 warm=1\nmf_bp n=16 warm=1\nmf_ef n=3\nmf_tkv n=3\nmf_v8 n=3 warm=1\nmf_v8 n=0", subst=True, bounds=KBM)
L("h_map", "C20", q, "pk_bit_ef n=70 n2=3\npk_bit_ef n=0 n2=0\npk_v8_rs n=3 n2=600\npk_bp_gv n=16 n2=2 cost=5\npk_ef_v64 n=3 n2=3\npk_nib_ct n=3 n2=3\npk_tkv_da1 n=3 n2=64", subst=True, bounds=KB + "; three structures in one stream, mapped at the reported offsets")
L("h_util", "C25", q, "ln_mmap n=0\nln_buf n=0 null=1\nln_mmap n=1\nln_mmap n=2\nln_mmap n=3\nln_mmap n=4\nln_mmap n=3 pre=4094\nln_mmap n=3 pre=300", bounds="a mapped file of `pre` ordinary characters, then n symbolic bytes")
L("h_map", "C28", q, "\n".join("sz_%s n=%d dump=1" % (k, n) for k in "bit rs bp da1 da0 d64 ef efl efc gv gb ct tkv tke nib v64 v16 v8".split() for n in (2, 3) if k not in ("bp", "ct") or n == 2) + "\nsz_bp n=600 full=0 dump=1\nsz_rs n=600 dump=1", subst=True, bounds=KB)
# ---------------------------------------------------------------- C31
RGB = "ranges of the element type and kind given by the entry (8/16/32/64-bit unsigned, signed, bool; vector, deque, list, pointer pair, reversed), element count m or n, every value of the element type (code lengths llo..lhi), all symbolic"
L("h_range", "C31", q, "\n".join("%s kind=%d m=%d" % (e, k, m) for e in ("rg_gv", "rg_gb", "rg_efc", "rg_mv") for k in range(8) for m in (0, 1)) + "\n" + "\n".join("%s kind=%d m=2 llo=%d cost=2" % (e, k, l) for e in ("rg_gv", "rg_gb", "rg_efc") for k, l in ((1, 9), (2, 24), (4, 26), (7, 24), (3, 57))) + """
rg_gv kind=0
rg_gb kind=0
rg_efc kind=0
rg_mv kind=2
rg_mv kind=7 m=3 llo=25
rg_gv_node m=2 llo=28
rg_gb_node m=2 llo=28
rg_efc_node m=2 llo=28
rg_efl8 m=3
rg_efl8 m=4 S=1000
rg_efl8 m=5 S=1275
rg_efl16 m=3 S=150000
rg_efl32 m=3 S=10000000000
rg_efl_node m=3 S=10000000000
rg_nib8
rg_nib64
rg_nib_node
rg_nib8 m=16
rg_ct8 n=4
rg_ct_i8 n=4
rg_ct_i64 n=4
rg_ct32 n=4
rg_ct_low n=4
rg_ct_state n=4
rg_ct_low n=5
rg_tk8 n=4
rg_tk_i32 n=4
rg_tk_wide n=4
rg_tk_efc n=2 hi=6
rg_tk_efc lo=4294967294 hi=4294967295 n=2
rg_rs_bool n=6 cost=2
rg_rs_char n=6 cost=3
rg_rs_node n=6 cost=2
rg_rs_bool n=70 full=0 cost=6
rg_rs_char n=64 full=0 cost=6
rg_rs_node n=65 full=0 cost=6
rg_bp
rg_bp n=10 cost=2
""", subst=True, bounds=RGB)
L("h_range", "C31", t, "\n".join("%s kind=%d m=2 cost=50 T=600" % (e, k) for e in ("rg_gv", "rg_gb", "rg_efc") for k in (2, 4, 7)) + "\nrg_rs_bool n=9 cost=60 T=600\nrg_bp n=12 cost=10\nrg_tk_efc cost=60 T=600\nrg_ct_low n=6 cost=10\nrg_ct_i64 n=6 cost=10", subst=True, bounds=RGB)

L("h_bits", "C02", q, "bb_seq op0=1 op1=8 depth=3 n0lo=100 n0hi=100 k0=64 cost=8\nbb_seq op0=3 op1=8 depth=3 n0lo=37 n0hi=37 k0=130 cost=8\nbb_seq op0=6 op1=8 depth=3 n0lo=70 n0hi=70 k0=61 cost=8\nbb_big n0=1100 n1=0 what=8\nbb_big n0=1100 n1=1000 what=8\nbb_big n0=1100 n1=1100 what=8\nbb_big n0=1100 n1=2000 what=8\nbb_big n0=1100 n1=5000 what=8")
L("h_cart", "C12", q, "tk_vec n=8 vhi=1 alo=0 ahi=0 blo=7 bhi=7 klo=8 khi=8 cost=10\ntk_vec n=7 vhi=1 alo=0 ahi=1 blo=6 bhi=6 klo=5 khi=7 cost=10", subst=True, bounds="every array of n values up to vhi")
L("h_map", "C26", q, """
sw_rs n=70 n2=600 hints=2 hints2=0
sw_rs n=600 n2=70 hints=0 hints2=2 rev=1
sw_rs n=130 n2=1100 hints=1 hints2=2
sw_rs n=130 n2=70 hints=2 hints2=1 rev=1
sw_rs n=130 n2=130 hints=3 hints2=3
sw_bp n=10 n2=16 hints=3 rev=1
sw_bp n=16 n2=0 hints=2
sw_ef n=16 n2=10 rev=1
sw_v8 n=3 n2=0 rev=1
""", subst=True, bounds=KB)
L("h_mv", "C21", q, "mv_mapped depth=1\nmv_mapped depth=2 max=2 cost=5", bounds="vectors of up to max symbolic elements mapped to one image, every sequence of depth operations on one of them")
L("h_mv", "C21", t, "mv_mapped depth=3 max=1 cost=20\nmv_mapped depth=3 max=2 cost=60 T=600", bounds="vectors of up to max symbolic elements mapped to one image, every sequence of depth operations on one of them")
RTB = "every value of n symbolic bits (under mask in each word when given), every other route of construction, every cut point"
L("h_map", "C30", q, """
rt_bit n=0
rt_bit n=1
rt_bit n=10
rt_bit n=63
rt_bit n=64
rt_bit n=65 cost=5
rt_bit n=130 cost=10
rt_rs n=10
rt_rs n=70
rt_da1 n=8
rt_da0 n=8
rt_ef n=4 cost=5
rt_vec
rt_ct n=3
rt_ct n=4
rt_gv n=2
rt_gb n=2
rt_efl n=2
rt_efc n=2
rt_tkv n=3 lhi=1
rt_tke n=2 lhi=2
rt_nib n=3 lhi=3 top=15
rt_v64 n=3 lhi=1
""", subst=True, bounds=RTB)

# ---------------------------------------------------------------- C32
CPB = "structure of the given size with symbolic contents (bits under the masks m0, m1 of words w0, w1), every start, every number of steps before the copy, every interleaving of depth steps on original, copy and assigned enumerator"
L("h_copy", "C32", q, """
cp_bits n=40
cp_bits n=100 cost=2
cp_bits n=150 m0=15 m1=15 cost=8
cp_unary n=64
cp_unary n=130 cost=8
cp_unary n=130 from=70 most=3 cost=4
cp_unary n=300 pat=1 w1=3 most=3 cost=15
cp_sel m=1
cp_sel m=2
cp_sel m=2 n=0
cp_sel m=3 n=40 cost=2
cp_sel m=4 n=9 cost=8
cp_gv m=0
cp_gv m=1 llo=0 lhi=40
cp_gv m=2 cost=5
cp_gv m=3 lhi=1 cost=2
cp_gb m=0
cp_gb m=1 llo=1 lhi=40
cp_gb m=2 cost=4
cp_gb m=3 lhi=1
cp_efc m=0
cp_efc m=1 llo=0 lhi=12
cp_efc m=2 cost=9
cp_efc m=3 lhi=1 cost=3
cp_efl m=1
cp_efl m=2 cost=11
cp_efl m=3 lhi=1 cost=5
cp_tkv m=1
cp_tkv m=2
cp_tkv m=3 cost=19
cp_tke m=2 vhi=15 cost=20
cp_buf n=1
cp_buf n=3 cost=2
cp_buf n=4 cost=16
cp_held n=1
cp_held n=4 cost=3
cp_topheld m=1
cp_topheld m=4 cost=3
""", subst=True, bounds=CPB)
L("h_copy", "C32", t, "cp_bits n=150 depth=4 cost=90 T=600\ncp_gv m=3 cost=120 T=900\ncp_gb m=3 cost=120 T=900\ncp_gv m=2 llo=0 lhi=6 cost=90 T=600\ncp_efc m=3 cost=120 T=900\ncp_efl m=3 cost=120 T=900\ncp_tke m=2 cost=50 T=300\ncp_buf n=5 cost=120 T=900", subst=True, bounds=CPB)

L("h_da", "C13", q, """
da_one n=100000 style=11 w0=800 cost=2
da_zero n=100000 style=11 w0=800 cost=2
da_one n=100000 style=12 w0=800 klo=1000 cost=2
da_zero n=100000 style=12 w0=800 klo=1000 cost=2
da_one n=140000 style=11 gap=70000 w0=5
da_one n=70000 style=12 gap=66000 w0=1090 klo=1000
da_one n=80000 style=11 gap=2430 w0=1000
da_zero n=80000 style=11 gap=2430 w0=1000
da_one n=140000 style=12 gap=2200 w0=1000 klo=1000
da_one n=140000 style=11 gap=1000 w0=1000
da_one n=200000 style=12 gap=300 w0=2000 klo=1000
da_one n=66000 style=11 gap=65530 w0=1023
da_one n=66000 style=11 gap=65531 w0=1023 m0=0xff00000000000000
""", subst=True, bounds=DAB)
for k in range(4): L("h_bits", "C04", q, "\n".join("bv_near n=4100 pat=%d w0=%d w1=%d kind=%d mask=0xffffffffffffffff" % (1 - (k & 1), a, b, k) for a, b in ((40, 41), (33, 34), (33, 63), (7, 8), (62, 63))), bounds=WB)
BIG = "large structure (skeleton of n elements) with a few symbolic elements; queries symbolic in the stated window"
EB = "n=40000000 m=70000 style=2 s0=65535 s1=65536"
L("h_bp", "C09", q, """
bp_close n=1100000 style=0 w0=300 w1=1000 w2=16000 clo=299 chi=301 cost=15
bp_close n=1100000 style=5 w0=300 w1=1000 w2=16000 clo=0 chi=1 cost=10
bp_open n=1100000 style=0 w0=300 w1=1000 w2=16000 clo=16999 chi=17000
""", subst=True, bounds=BIG)
L("h_bp", "C09", t, """
bp_enclose n=1100000 style=6 w0=300 w1=1000 w2=16000 clo=17000 chi=17001 cost=41 T=600
bp_enclose n=1100000 style=1 w0=300 w1=1000 w2=16000 clo=17000 chi=17001 cost=32 T=600
""", subst=True, bounds=BIG)
L("h_bp", "C10", q, """
bp_rmq n=1100000 style=2 w0=200 w1=600 w2=9000 clo=3 chi=3 blo=16400 bhi=16400 cost=5
bp_rmq n=1100000 style=4 w0=200 w1=600 w2=9000 clo=3 chi=3 blo=16400 bhi=16400 part=1 cost=3
bp_rmq n=1100000 style=5 w0=200 w1=600 w2=9000 clo=500 chi=500 blo=12400 bhi=12400 cost=5
bp_rmq n=1100000 style=0 w0=200 w1=600 w2=9000 clo=700 chi=700 blo=16400 bhi=16400 part=1 cost=3
""", subst=True, bounds=BIG)
L("h_bp", "C10", t, """
bp_rmq n=700000 style=6 w0=200 w1=600 w2=9000 clo=700 chi=700 blo=10400 bhi=10400 part=0 cost=64 T=600
bp_rmq n=700000 style=6 w0=200 w1=600 w2=9000 clo=700 chi=700 blo=10400 bhi=10400 part=1 cost=42 T=600
""", subst=True, bounds=BIG)
L("h_ef", "C15", q, """
ef_select %s klo=65530 khi=65540 cost=4
ef_select n=70000 m=70000 style=0 s0=65535 s1=65536 klo=65530 khi=65540
ef_rank %s plo=37420000 phi=37421500 what=0 cost=10
ef_rank %s plo=37448000 phi=37450000 what=1 cost=15
ef_rank %s plo=37420000 phi=37421500 what=2 klo=65500 khi=65570 cost=13
ef_rank %s plo=37420000 phi=37421500 what=3 klo=65500 khi=65570 cost=13
ef_rank n=70100 m=70000 style=4 s0=65535 s1=65536 plo=65620 phi=65650 what=2 klo=65515 khi=65545
ef_rank n=70100 m=70000 style=4 s0=65535 s1=65536 plo=65620 phi=65650 what=3 klo=65515 khi=65545
""" % ((EB,) * 5), subst=True, bounds=BIG)
L("h_ef", "C16", q, "ef_delta %s klo=65530 khi=65540 cost=5\nef_pair %s klo=65530 khi=65540 cost=4\nef_enum %s klo=65536 khi=65536 take=10 cost=24" % (EB, EB, EB), subst=True, bounds=BIG)
L("h_ef", "C16", t, "ef_enum %s klo=65000 khi=65000 take=600 cost=29" % EB, subst=True, bounds=BIG)
L("h_ef", "C17", q, "efc m=20000 style=1 s0=16384 klo=16383 khi=16385 lhi=6 cost=12\nefl m=70000 S=400000 style=0 s0=65535 klo=65530 khi=65540 xhi=9\nefl m=70000 S=3000000000000000 style=2 s0=65535 klo=65530 khi=65540 xhi=20000000000", subst=True, bounds=BIG)
L("h_da", "C13", q, """
da_one n=2000000 style=3 w0=1710 w1=30000 m0=0x3 m1=0x3 klo=21000 khi=21020 cost=7
da_one n=7000000 style=2 w0=4000 w1=100000 m0=0x3 m1=0x3 klo=65530 khi=65540 cost=15
da_zero n=2000000 style=1 w0=4000 w1=31000 m0=0x3 m1=0x3 klo=999000 khi=999010 cost=19
""", subst=True, bounds=BIG)
L("h_da", "C14", q, "da_64 n=70000 base=3 s0=65536 klo=65535 khi=65537 shi=8", subst=True, bounds=BIG)
L("h_gamma", "C18", q, """
ga_vec m=5000 style=0 s0=2047 s1=2048 klo=2045 khi=2050 lhi=5 cost=10
ga_vec m=20000 style=0 s0=16383 s1=16384 klo=16380 khi=16386 lhi=4 cost=15
ga_bit m=5000 style=0 s0=2047 s1=2048 klo=2045 khi=2050 llo=1 lhi=6 cost=12
""", subst=True, bounds=BIG)
L("h_gamma", "C18", t, "ga_vec m=5000 style=0 s0=2047 s1=2048 klo=2045 khi=2050 lhi=8 cost=30\nga_bit m=5000 style=0 s0=2047 s1=2048 klo=2045 khi=2050 llo=1 lhi=8 cost=30", subst=True, bounds=BIG)
L("h_gamma", "C19", q, """
fw_vec m=3000 style=1 s0=2047 s1=2048 klo=2046 khi=2049 lhi=4 take=20 cost=20
fw_efc m=3000 style=0 s0=2047 klo=2046 khi=2049 lhi=4 take=20 cost=3
fw_skip m=20000 style=1 s0=16383 klo=16380 khi=16380 smax=40 steps=1 lhi=4
fw_map m=70000 style=0 s0=65535 s1=65536 klo=65534 khi=65537 lhi=6 take=100 cost=4
""", subst=True, bounds=BIG)
L("h_gamma", "C19", t, "fw_bit m=5000 style=0 s0=2047 s1=2048 klo=2046 khi=2049 lhi=6 take=100 cost=31 T=300", subst=True, bounds=BIG)
L("h_cart", "C11", q, """
ct_less n=70000 style=5 s0=65535 alo=65500 ahi=65510 blo=65600 bhi=65610 vhi=15 cost=3
ct_less n=70000 style=2 s0=65535 alo=65500 ahi=65501 blo=65600 bhi=65601 cost=12
ct_less n=70000 style=5 s0=65535 alo=100 ahi=101 blo=65600 bhi=65602 vhi=7 cost=3
ct_greater n=70000 style=5 s0=65535 alo=65500 ahi=65510 blo=65600 bhi=65610 cost=11
""", subst=True, bounds=BIG)
L("h_cart", "C12", q, """
tk_vec n=70000 style=2 s0=65535 alo=65530 ahi=65530 blo=65540 bhi=65541 klo=3 khi=4 ilo=65535 ihi=65536 cost=5
tk_vec n=70000 style=5 s0=65535 alo=100 ahi=100 blo=65540 bhi=65541 klo=3 khi=3 vhi=7 ilo=65535 ihi=65536 cost=3
""", subst=True, bounds=BIG)
def jobs(prop, tier):
    return QUICK.get(prop, []) + (THOROUGH.get(prop, []) if tier == "thorough" else [])
def assumptions(prop):
    return ["clang 18's LLVM IR of /repo's current sources (compiled at -O0, then put through LLVM's standard -O1 pipeline without vectorisation by the executor) is executed; counterexamples are only reported after the g++ build of the same sources reproduces them",
            "bounds: as listed per job; inputs outside them are not covered"]
TRUST = "For every input within the bounds listed per job in the evidence, the solver shows the assertion. Trusted: clang's translation to LLVM IR, the executor's memory model and its bit-blasting (every path witness and counterexample is replayed on a g++ build), the harness's reference model. Inputs outside the bounds are not covered."
NOTE, NA = {}, {}
