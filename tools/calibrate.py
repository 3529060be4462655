#!/usr/bin/env python3
"""STAT dumps of calibration runs (YUVMON_CALIB=1 YUVMON_DUMP=1 yuvmon run Cxx thorough) -> harness/tolerances.txt.

   tools/calibrate.py DUMP...            writes the table to stdout

Keys are `A|family|level|component|..` (largest error of one sample against exact arithmetic), `B|..` (mean and rms error)
and the integer-difference families X R N K M P G.  Margins: A max(12 %, a quarter of a unit; 30 % for caller-chosen coefficients) plus the spread
between seeds; integer differences a quarter to one and a quarter units plus the spread (0 stays 0); means +-0.06 units plus a quarter of the spread."""
import sys, re, collections
mx = collections.defaultdict(list); mean = collections.defaultdict(list); rms = collections.defaultdict(list); cnt = collections.defaultdict(int)
pat = re.compile(r"^STAT (\S+) n=(\d+) max=(\S+) mean=(\S+) rms=(\S+)")
for fn in sys.argv[1:]:
    for l in open(fn, errors="replace"):
        m = pat.match(l)
        if not m: continue
        k, n, a, b, r = m.group(1), int(m.group(2)), float(m.group(3)), float(m.group(4)), float(m.group(5))
        f = k.split("|")
        if f[0] == "B": k = "|".join(f[:4])
        mx[k].append(a); cnt[k] += n
        if n >= 200: mean[k].append(b); rms[k].append(r)
pool = collections.defaultdict(list)
for k in mx:
    f = k.split("|")
    if k[0] == "R": pool[(f[0], f[1]) + tuple(f[3:])] += mx[k]
for k in sorted(mx):
    fam = k.split("|")[1] if "|" in k else ""
    dst = fam.split(">")[-1] if ">" in fam else fam
    unit = 0.0004 if re.search(r"_\d+h(-|$|:)", dst) or dst.endswith("h") else 1.0
    half, custom = unit != 1.0, "custom" in fam
    bits = re.search(r"_(\d+)[bwh]", dst); bits = int(bits.group(1)) if bits else 8
    vals = mx[k]
    # round trips are dominated by the picture, not by the level: one limit for all levels
    if k[0] == "R": f = k.split("|"); vals = pool[(f[0], f[1]) + tuple(f[3:])]
    a = max(vals); sp = max(mx[k]) - min(mx[k])
    if k[0] in "AB":
        lim = a + max((0.3 if custom else 0.12) * a, 0.25 * unit) + sp
        if a == 0: lim = 0.25 * unit
    elif k[0] in "XR":
        if a == 0: lim = 0.0
        elif half: lim = a + sp + 0.0006
        elif k[0] == "X" and a <= 1 and bits == 8: lim = a + 0.25
        else: lim = a + sp + 1.25
    else:
        lim = 0.0 if a == 0 else a + 0.25 * unit + sp
        # endpoints and neutrals under fixed-point coefficients of an arbitrary matrix: three roundings of 2^-13
        if k[0] in "KN" and custom and not half: lim += {8: 0, 10: 0, 12: 1, 14: 3, 16: 12}.get(bits, 0)
    # moves and exact repacking never differ (Rotate90 differs between levels: a listed finding, not a rounding)
    if k[0] == "X" and fam.split(":")[0] in ("Rotate", "Mirror", "Shuffle", "Repack", "Rgb30"): lim = 0.0
    if k[0] == "G" and lim == 0: continue
    if mean[k]:
        lo, hi = min(mean[k]), max(mean[k]); s = 0.06 * unit + 0.25 * (hi - lo)
        lo, hi, r = lo - s, hi + s, max(rms[k]) * 1.06 + 0.03 * unit
    else: lo, hi, r = -1e9, 1e9, 1e9
    print(f"{k} {lim:.6g} {lo:.6g} {hi:.6g} {r:.6g}")
