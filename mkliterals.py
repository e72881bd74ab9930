#!/usr/bin/env python3
"""Collect every numeric literal of the library sources: the white-box input alphabet.
Output lines: <file> <kind> <hex>; kind i = integer literal, f = f64 bit pattern, g = f32 bit pattern."""
import os, re, struct, sys
root, out = sys.argv[1], sys.argv[2]
seen = set()
num = re.compile(r'(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*\.?[\d_]*(?:[eE][+-]?\d+)?)((?:_?[fiu](?:8|16|32|64|128|size))?)')
hexf = re.compile(r'"(-?0x[0-9a-fA-F.]+p[+-]?\d+)"')
for d, _, fs in os.walk(root):
    for fn in sorted(fs):
        if not fn.endswith('.rs'): continue
        src = open(os.path.join(d, fn), errors='replace').read()
        src = re.split(r'#\[cfg\(test\)\]\s*mod ', src)[0]
        src = re.sub(r'/\*.*?\*/', ' ', src, flags=re.S)
        src = re.sub(r'//[^\n]*', ' ', src)
        name = fn[:-3]
        def add(kind, v): seen.add((name, kind, v))
        for m in hexf.finditer(src):
            try: add('f', struct.unpack('<Q', struct.pack('<d', float.fromhex(m.group(1))))[0])
            except Exception: pass
        for m in num.finditer(src):
            t, suf = m.group(1).replace('_', ''), m.group(2)
            try:
                if t[:2] in ('0x', '0b'):
                    v = int(t, 0)
                    if v < 1 << 64: add('i', v)
                    else: add('i', v >> 64)
                elif '.' in t or 'e' in t or 'E' in t or suf in ('f32', 'f64'):
                    f = float(t)
                    add('f', struct.unpack('<Q', struct.pack('<d', f))[0])
                    try: add('g', struct.unpack('<I', struct.pack('<f', f))[0])
                    except OverflowError: pass
                else:
                    v = int(t)
                    if v < 1 << 64: add('i', v)
            except Exception: pass
with open(out, 'w') as f:
    for n, k, v in sorted(seen): f.write('%s %s %x\n' % (n, k, v))
