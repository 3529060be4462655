#!/usr/bin/env python3
"""Generates harness/src/ops.rs (the operation registry) from the crate's public API.

usage: gen_ops.py sigs.json > ops.rs     (sigs.json comes from tools/sigs.py over rustdoc JSON)
The output is committed; the checks never run this.
"""
import json, re, sys

sigs = json.load(open(sys.argv[1]))
SS = {'420': 'S420', '422': 'S422', '444': 'S444', '400': 'S400'}
SSD = {'0': 'S420', '2': 'S422', '4': 'S444'}
NV = {'12': ('S420', 0), '21': ('S420', 1), '16': ('S422', 0), '61': ('S422', 1), '24': ('S444', 0), '42': ('S444', 1)}

def b(x): return 'true' if x else 'false'
def planar(ss, bits, alpha=0, be=0): return f'planar({ss}, {bits}, {b(alpha)}, {b(be)})'
def bip(ss, bits, vu): return f'bip({ss}, {bits}, {b(vu)})'
def gray(bits, alpha=0): return f'gray({bits}, {b(alpha)})'
def rgb(o, bits, elem): return f'rgb({o.upper()}, {bits}, {elem})'

def side(s, p16=0):
    """parse one side of x_to_y; returns (fmt, model) """
    be = 0; alpha = 0; f16 = 0
    t = s
    if t.endswith('_p16'): t = t[:-4]
    parts = t.split('_')
    parts0 = list(parts)
    for k in ('be',):
        while k in parts: parts.remove(k); be = 1
    if 'with' in parts: parts.remove('with')
    while 'alpha' in parts: parts.remove('alpha'); alpha = 1
    if 'f16' in parts: parts.remove('f16'); f16 = 1
    sharp = 'sharp' in parts
    if sharp: parts.remove('sharp')
    if 'rdp' in parts: parts.remove('rdp')
    if parts[0] == 'yuv' and len(parts) == 2: parts = [parts[1]]
    t = parts[0]
    m = re.fullmatch(r'nv(\d\d)', t)
    if m: ss, vu = NV[m[1]]; return bip(ss, 8, vu), 'Yuv'
    m = re.fullmatch(r'yuv(4\d\d)', t)
    if m:
        if m[1] == '400': return gray(8, alpha), 'Yuv'
        return planar(SS[m[1]], 16 if p16 else 8, alpha, be), 'Yuv'
    m = re.fullmatch(r'p([024])(\d\d)', t)
    if m: return bip(SSD[m[1]], int(m[2]), 0), 'Yuv'
    m = re.fullmatch(r'i([024])(\d\d)', t)
    if m: return planar(SSD[m[1]], int(m[2]), alpha, be), 'Yuv'
    m = re.fullmatch(r'y0(\d\d)', t)
    if m: return gray(int(m[1]), alpha), 'Yuv'
    m = re.fullmatch(r'ycgco(\d\d\d)', t)
    if m: return planar(SS[m[1]], 8, alpha, be), 'YCgCo'
    m = re.fullmatch(r'icgc([024])(\d\d)', t)
    if m: return planar(SSD[m[1]], int(m[2]), alpha, be), 'YCgCo'
    if t == 'gbr': return planar('S444', 8, alpha), 'Gbr'
    m = re.fullmatch(r'gb(\d\d)', t)
    if m: return planar('S444', int(m[1]), alpha), 'Gbr'
    m = re.fullmatch(r'(yuyv|yvyu|uyvy|vyuy)422', t)
    if m: return f'packed({m[1].upper()}, {16 if p16 else 8})', 'Yuv'
    if t in ('ayuv', 'vyua'): return f'packed444({t.upper()})', 'Yuv'
    m = re.fullmatch(r'(ar|ab|ra|ba)30', t)
    if m: return f'rgb30({t.upper()})', None
    m = re.fullmatch(r'(rgb|rgba|bgr|bgra|argb|abgr)(\d\d?)?', t)
    if m:
        bits = int(m[2]) if m[2] else None
        if f16: return rgb(m[1], 16, 'F16'), None
        if p16: return rgb(m[1], 16, 'U16'), None
        bits = bits or 8
        return rgb(m[1], bits, 'U8' if bits == 8 else 'U16'), None
    raise SystemExit('cannot parse ' + s)

CALLS = []
out = []
n = 0
for sig, l in sigs.items():
    base = sig
    ci = len(CALLS)
    CALLS.append(sig)
    for name, args in l:
        model = None
        if name.startswith('rotate_') or name.startswith('mirror_'):
            k, t = name.split('_')
            w16 = t.endswith('16'); t = t.replace('16', '')
            ch = {'plane': 1, 'cbcr': 2, 'rgb': 3, 'rgba': 4}[t]
            el = 'U16' if w16 else 'U8'
            f = f'chan({ch}, {16 if w16 else 8}, {el})'
            out.append((name, f, f, 'Rotate' if k == 'rotate' else 'Mirror', ci)); continue
        if name.startswith('convert_'):
            m = re.fullmatch(r'convert_(plane|rgb|rgba)(16)?(_f16)?_to_(\w+)', name)
            ch = {'plane': 1, 'rgb': 3, 'rgba': 4}[m[1]]
            if m[3]:
                d16 = m[4].endswith('16')
                out.append((name, f'chan({ch}, 16, F16)', f"chan({ch}, {16 if d16 else 8}, {'U16' if d16 else 'U8'})", 'FromF16', ci))
            else:
                s16 = bool(m[2])
                out.append((name, f"chan({ch}, {16 if s16 else 8}, {'U16' if s16 else 'U8'})", f'chan({ch}, 16, F16)', 'ToF16', ci))
            continue
        if name.startswith('rdp_'):
            a, c = name[4:].split('_to_')
            if a == 'yuv444': out.append((name, 'rdp()', side(c)[0], 'Rdp', ci))
            else: out.append((name, side(a)[0], 'rdp()', 'Rdp', ci))
            continue
        a, c = name.split('_to_')
        be_s = a.endswith('_be')
        # be marks: encoder 'rgb10_to_i010_be'
        p16 = name.endswith('_p16'); fa, ma = side(a, p16); fc, mc = side(c, p16)
        if '_sharp_' in name: model = 'Sharp'
        elif ma and mc: model = 'Repack'
        elif ma or mc: model = ma or mc
        else:
            model = 'Rgb30' if '30' in name else 'Shuffle'
        out.append((name, fa, fc, model, ci))

def rs_ty(sig):
    t = sig
    t = t.replace('f16', 'f16')
    return 'fn' + t + ' -> Result<(), YuvError>'

print('// @generated by tools/gen_ops.py from the public API of the crate under test; do not edit.')
print('use crate::fmt::*;\nuse yuv::*;\n')
print('#[derive(Clone, Copy)]\npub enum Call {')
for i, s in enumerate(CALLS): print(f'    C{i}({rs_ty(s)}),')
print('}\n')
print('pub fn registry() -> Vec<Op> {\n    vec![')
for i, (name, fa, fc, model, ci) in enumerate(out):
    print(f'        Op::new({i}, "{name}", {fa}, {fc}, Model::{model}, Call::C{ci}({name})),')
print('    ]\n}')
sys.stderr.write('\n'.join(f'C{i} {s} {len(sigs[s])}' for i, s in enumerate(CALLS)) + '\n')
