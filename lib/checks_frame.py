"""C01, C02: telegram recognition and encoding."""
import re
from core import *
SC = [0x40, 0x5A, 0x7A, 0x5B, 0x7B]; LC = [0x53, 0x73, 0x08, 0x18, 0x28, 0x38]
def img(f):
    t = f[0]
    if t == 1: return [0xE5]
    if t == 2: return [0x10, f[1], f[2], (f[1] + f[2]) & 255, 0x16]
    b = [f[1], f[2], f[3]] + (list(f[4]) if t == 4 else [])
    return [0x68, len(b), len(b), 0x68] + b + [sum(b) & 255, 0x16]
def rframe(r, maxd=252):
    t = r.choice([1, 2, 3, 4, 4])
    if t == 1: return (1,)
    if t == 2: return (2, r.choice(SC), r.randrange(256))
    if t == 3: return (3, r.choice(LC), r.randrange(256), r.randrange(256))
    n = r.choice([1, 2, r.randrange(1, 20), r.randrange(1, maxd + 1)])
    return (4, r.choice(LC), r.randrange(256), r.randrange(256), [r.randrange(256) for _ in range(n)])

def parse_case(bs, junk=False, tag=''): return Case('parse', 'parse d=%s%s' % (hx(bs), ' junk=1' if junk else ''), {'d': list(bs)}, tag)

def c01(k):
    k.build(); r = k.rng
    o = k.model('MBusFrameModel')
    strs = {bytes.fromhex(x) for x in re.findall(r'"CASE ([0-9a-f]+)"', o)}
    strs.add(b'')
    base = [img((1,)), img((2, 0x5B, 5)), img((2, 0x40, 254)), img((3, 0x53, 1, 0x50)), img((4, 8, 1, 0x72, [1])), img((4, 0x73, 253, 0x52, list(range(8))))]
    for f in base:                                  # every single byte change, every truncation, extensions
        for p in range(len(f)):
            for v in range(256):
                if p in (1, 2) and f[0] == 0x68 and v > 40 and v % 5 and not k.quick is False: continue
                g = list(f); g[p] = v; strs.add(bytes(g))
        for n in range(len(f)): strs.add(bytes(f[:n]))
        for v in (0, 0x16, 0xE5, 0x10, 0x68): strs.add(bytes(f + [v])); strs.add(bytes(f + [v, v]))
    for v in range(256):                            # length bytes in agreement, every length, some content
        for n in ({3, 4, 5, 6, v + 5, v + 6, v + 7} if not k.quick or v < 12 or v > 245 or v % 9 == 0 else {3, v + 5}):
            b = [0x68, v, v, 0x68, 8, 1, 0x72] + [7] * (v - 3 if v > 3 else 0); b = b[:4 + v]
            b = b + [sum(b[4:]) & 255, 0x16, 0x16]; strs.add(bytes(b[:n]))
        for c in (0x08, 0x40): strs.add(bytes([0x10, v, 1, (v + 1) & 255, 0x16])); strs.add(bytes([0x68, 3, 3, 0x68, v, c, 0x72, (v + c + 0x72) & 255, 0x16]))
        strs.add(bytes([v])); strs.add(bytes([v, 0x16]))
    for _ in range(1500 if k.quick else 20000):
        f = img(rframe(r)); m = r.randrange(6)
        if m == 0: f = f[:r.randrange(len(f) + 1)]
        elif m == 1: f[r.randrange(len(f))] ^= 1 << r.randrange(8)
        elif m == 2: f += [r.randrange(256) for _ in range(r.randrange(1, 40))]
        elif m == 3: i, j = r.randrange(len(f)), r.randrange(len(f)); f[i], f[j] = f[j], f[i]
        elif m == 4 and len(f) > 6: f[1] = f[2] = r.randrange(256)
        strs.add(bytes(f))
    for _ in range(500 if k.quick else 5000): strs.add(bytes([r.choice([0x10, 0x68, 0xE5, r.randrange(256)])] + [r.choice([3, 4, 0x68, 0x16, r.randrange(256)]) for _ in range(r.randrange(30))]))
    cs = sorted(strs); cases = [parse_case(b, r.random() < .5) for b in cs if len(b) <= 300]
    k.pure(cases)
    return k.finish(assumptions=['strings up to 300 bytes; all single-byte changes of representative telegrams of each type; all strings the exhaustive frame model reaches'])

def pack_case(f, n):
    t = f[0]; i = {'t': t, 'n': n}; cmd = 'pack t=%d n=%d' % (t, n)
    for key, v in zip(('c', 'a', 'ci'), f[1:4]): i[key] = v; cmd += ' %s=%d' % (key, v)
    if len(f) > 4: i['d'] = list(f[4]); cmd += ' d=' + hx(f[4])
    return Case('pack', cmd, i)
def verify_case(f, **ov):
    t = f[0]; i = {'t': t}; cmd = 'verify t=%d' % t
    for key, v in zip(('c', 'a', 'ci'), f[1:4]): i[key] = v; cmd += ' %s=%d' % (key, v)
    if len(f) > 4: i['d'] = list(f[4]); cmd += ' d=' + hx(f[4])
    for a, b in ov.items(): cmd += ' %s=%d' % (a, b)
    return Case('verify', cmd, i)

def c02(k):
    k.build(); r = k.rng
    k.model('MBusFrameModel')
    fs = [(1,)] + [(2, c, a) for c in range(256) for a in (0, 1, 253, 255)] + [(2, 0x5B, a) for a in range(256)]
    fs += [(3, c, 1, 0x50) for c in range(256)] + [(3, 0x53, a, 0x51) for a in range(0, 256, 3)] + [(3, 0x53, 1, ci) for ci in range(256)]
    fs += [(4, c, 254, 0x72, [1, 2, 3]) for c in range(256)] + [(4, 8, 1, 0x72, [(7 * i + n) & 255 for i in range(n)]) for n in (range(0, 253) if not k.quick else list(range(0, 20)) + list(range(20, 253, 7)) + list(range(245, 253)))]
    fs += [rframe(r) for _ in range(300 if k.quick else 5000)]
    cases = [pack_case(f, 300) for f in fs]
    for f in [(1,), (2, 0x5B, 5), (3, 0x53, 1, 0x50), (4, 8, 1, 0x72, [9]), (4, 8, 1, 0x72, [3] * 30), (4, 8, 1, 0x72, [3] * 252)]:
        L = len(img(f)); cases += [pack_case(f, n) for n in sorted({0, 1, 2, 4, 5, 6, 8, 9, 10, L - 2, L - 1, L, L + 1} | (set(range(L + 3)) if not k.quick else set())) if n >= 0]
    cases += [pack_case((t, 0x53, 1, 0x50, [1, 2]), 300) for t in (0, 5, 6, 9, 100, 255)]
    vf = [(1,), (2, 0x40, 1), (2, 0x7B, 254), (3, 0x53, 1, 0x50), (4, 0x73, 253, 0x52, [0xFF] * 8), (4, 8, 0, 0x72, [1] * 252), (4, 0x38, 3, 0x72, [200, 100])]
    for f in vf:
        cases.append(verify_case(f))
        for key in ('s1', 's2', 'l1', 'l2', 'ck', 'st'):
            if f[0] == 1 and key != 's1': continue
            if f[0] == 2 and key in ('s2', 'l1', 'l2'): continue
            for v in range(256): cases.append(verify_case(f, **{key: v}))
        if f[0] >= 3:
            for v in range(0, 256, 5): cases.append(verify_case(f, l1=v, l2=v))
    for t, nm in ((2, 2), (3, 3), (4, 4)):
        for c in range(256): cases.append(verify_case((t, c, 7) if t == 2 else (t, c, 7, 0x72) if t == 3 else (t, c, 7, 0x72, [5])))
    cases += [verify_case((t, 0x53, 1, 0x50)) for t in (0, 5, 77)]
    k.pure(cases)
    return k.finish(assumptions=['payloads up to 252 bytes'])
