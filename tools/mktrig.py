#!/usr/bin/env python3
"""data/trig_worst.txt: for every binade, the doubles closest to a multiple of pi/2 (and pi/4),
i.e. the hardest argument-reduction inputs. Best-approximation search on the continued fraction
of 2^e / (pi/4); every candidate m in [2^52, 2^53)."""
from mpmath import mp, mpf, floor, nint
mp.prec = 2600
Q = mp.pi / 4
import struct
out = set()
for e in range(-52, 972):            # value m * 2^e
    al = mpf(2) ** e / Q             # m*al close to integer
    # continued fraction of frac(al)
    fr = al - floor(al)
    x = fr; a = []
    p0, q0, p1, q1 = 0, 1, 1, 0      # convergent denominators q
    ks = []
    q_prev, q_cur = 0, 1
    y = x
    dens = [1]
    qm1, qm0 = 0, 1
    for _ in range(200):
        if y == 0: break
        y = 1 / y; c = int(floor(y)); y = y - c
        qn = c * qm0 + qm1
        if qn > 2 ** 54: break
        dens.append(qn)
        # semiconvergents
        qm1, qm0 = qm0, qn
    lo, hi = 2 ** 52, 2 ** 53
    cands = set()
    D = dens[-6:]
    for d in D:
        for mult in (1, 2, 3):
            if lo <= d * mult < hi: cands.add(d * mult)
        if d < lo:
            k = (lo + d - 1) // d
            for t in (k, k + 1, k + 2):
                if lo <= t * d < hi: cands.add(t * d)
    for i in range(len(D)):
        for j in range(i):
            for c1 in range(1, 5):
                for c2 in range(-4, 5):
                    m = c1 * D[i] + c2 * D[j]
                    if lo <= m < hi: cands.add(m)
    def dist(m):
        v = m * al; return abs(v - nint(v))
    for m in sorted(cands, key=dist)[:6]:
        out.add(struct.unpack('<Q', struct.pack('<d', float(m) * 2.0 ** e))[0])
with open('/verif/data/trig_worst.txt', 'w') as f:
    for v in sorted(out): f.write('%x\n' % v)
print(len(out))
