"""C13-C19, C22, C26: what the data of replies means."""
import re
from core import *
HDR = [0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 0x01, 0x07, 0x55, 0x00, 0x00, 0x00]
LEN = [0, 1, 2, 3, 4, 4, 6, 8, 0, 1, 2, 3, 4, None, 6, 8]
RAW = ['dif', 'dife', 'vif', 'vife', 'cust', 'd', 'ts']
def rb(r, n): return [r.randrange(256) for _ in range(n)]
def lvlen(v):
    if v <= 191: return v
    if 192 <= v <= 201: return v - 192
    if 208 <= v <= 217: return v - 208
    if 224 <= v <= 239: return v - 224
    if 240 <= v <= 244: return 4 * (v - 236)
    return {245: 48, 246: 64}.get(v, 0)
PARTS = {'raw': RAW, 'info': ['fn', 'sto', 'tar', 'dev', 'norm', 'ok'], 'value': ['val', 'norm', 'ok', 'num', 'str'], 'unit': ['unit', 'norm', 'ok', 'unit', 'qty', 'val', 'num'],
         'all': RAW + ['fn', 'sto', 'tar', 'dev', 'unit', 'val', 'norm', 'ok', 'num', 'str', 'qty']}
def vdata(d, part='raw', ci=0x72, c=8, norm=None, repack=0, tag=''):
    norm = (part != 'raw') if norm is None else norm
    return Case('vdata', 'vdata d=%s ci=%d c=%d%s%s' % (hx(d), ci, c, ' norm=1' if norm else '', ' repack=1' if repack else ''),
                {'d': list(d), 'ci': ci, 'c': c, 'norm': 1 if norm else 0, 'repack': repack, 'w': PARTS[part]}, tag)

# ---------------------------------------------------------------- records
def rec(dif, vif, data, dife=(), vife=(), unit=None):
    """bytes of a record; the extension bits are set as the extensions demand"""
    dife, vife = list(dife), list(vife)
    b = [dif & 0x7F | (0x80 if dife else 0)] + [x | 0x80 if i < len(dife) - 1 else x & 0x7F for i, x in enumerate(dife)]
    b += [vif & 0x7F | (0x80 if vife else 0)]
    if unit is not None: b += [len(unit)] + list(unit)
    b += [x | 0x80 if i < len(vife) - 1 else x & 0x7F for i, x in enumerate(vife)]
    return b + list(data)
def bcd_data(r, n, neg=None):
    d = [r.randrange(10) << 4 | r.randrange(10) for _ in range(n)]
    if neg if neg is not None else r.random() < .3: d[-1] = 0xF0 | d[-1] & 15
    return d
def field(r, coding, text=None):
    """data of a coding"""
    if coding == 13:
        if text is not None: return [len(text)] + list(text)
        k = r.randrange(8)
        v = r.choice([0, 1, r.randrange(2, 20), r.randrange(192)]) if k < 4 else r.choice([0xC0, 0xC1, 0xC3, 0xC9]) if k == 4 else r.choice([0xD0, 0xD2, 0xD9]) if k == 5 else r.randrange(0xE0, 0xF0) if k == 6 else r.choice([0xF0, 0xF4, 0xF5, 0xF6, 0xF7, 0xFF, 0xCA, 0xDF])
        n = lvlen(v)
        return [v] + ([r.randrange(32, 127) for _ in range(n)] if v < 192 and r.random() < .7 else rb(r, n))
    if coding in (9, 10, 11, 12, 14) and r.random() < .8: return bcd_data(r, LEN[coding])
    return rb(r, LEN[coding])
def random_record(r, maxlen=200):
    while True:
        coding = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15])
        dif = coding | r.choice([0, 0x40]) | r.choice([0, 0, 0x10, 0x20, 0x30])
        if dif & 0x7F in (0x0F, 0x1F, 0x2F): continue
        dife = rb(r, r.choice([0, 0, 0, 1, 2, r.randrange(11)]))
        k = r.randrange(10); unit = None
        vif = r.choice([0x7B, 0x7D]) if k == 0 else 0x7C if k == 1 else r.randrange(128)
        vife = rb(r, r.choice([0, 0, 0, 1, 1, 2, r.randrange(11)]))
        if vif in (0x7B, 0x7D) and not vife: vife = rb(r, 1)
        if vif == 0x7C: unit = [r.randrange(32, 127) for _ in range(r.choice([0, 1, 3, r.randrange(30), r.randrange(129)]))]
        b = rec(dif, vif, field(r, coding), dife, vife, unit)
        if len(b) <= maxlen: return b
def payload(r, total=None, idle=True, special=True):
    total = total or r.choice([20, 40, 80, 252]); d = [r.randrange(256) for _ in range(12)] if r.random() < .5 else list(HDR)
    while len(d) < total - 6:
        k = r.randrange(12)
        if k == 0 and idle: d += [0x2F] * r.randrange(1, 4)
        elif k == 1 and special and r.random() < .3: d += [r.choice([0x0F, 0x1F])] + rb(r, r.randrange(max(1, total - len(d)))); break
        else: d += random_record(r, max(8, total - len(d)))
    return d[:252]

DIFS = [0x2F, 0x0F, 0x1F]
def c13(k):
    k.build(); r = k.rng; cases = {}
    def add(d, **kw):
        if len(d) <= 252: c = vdata(d, 'raw', **kw); cases[c.cmd] = c
    o = k.model('RecordModel', 'RecordModel' if k.quick else 'RecordModelDeep')
    for x in re.findall(r'"CASE ([0-9a-f]*)"', o): add(HDR + list(bytes.fromhex(x)))
    for n in range(13): add(HDR[:n])                                              # incomplete headers
    for dif in range(256):                                                        # every DIF, data of every length up to a little more than it needs
        for n in range(0, 12): add(HDR + [dif] + ([3] if dif & 0x80 else []) + [0x13] + [7] * n)
        add(HDR + [dif])
    for vif in range(256):
        for n in range(0, 5): add(HDR + [1, vif] + [5] * n); add(HDR + [1, vif] + [0x85] * n)
    for v in range(256):                                                          # every LVAR length: exact, one short, followed by another record
        n = lvlen(v)
        for m in {n, n - 1, 0}:
            if m >= 0: add(HDR + [0x0D, 0x78, v] + [0x41 + j % 26 for j in range(m)])
        add(HDR + [0x0D, 0x78, v] + [0x30] * n + [1, 0x13, 9])
    for n in range(14):                                                           # chains of extensions up to and beyond the limit
        for last in (0, 1):
            for tail in ([0x13, 9], [0x13], [], [0x93, 1, 9]):
                add(HDR + [0x81] + [0x81] * n + ([1] if last else []) + tail)
                add(HDR + [1, 0x93] + [0x82] * n + ([2] if last else []) + tail[1:])
                add(HDR + [0x8D] + [0x81] * n + ([1] if last else []) + [0x93] + [0x81] * n + ([1] if last else []) + [2] + tail)
    for n in list(range(0, 6)) + [31, 63, 64, 65, 126, 127, 128, 129, 130, 200, 255]:   # plain-text units
        for m in {n, n - 1, n + 1, n + 2}:
            if m >= 0:
                for vif, e in ((0x7C, []), (0xFC, [0x70]), (0xFC, [0x81] * 10), (0xFC, [0x81] * 9 + [1])): add(HDR + [1, vif, n] + [0x61 + j % 26 for j in range(m)] + e)
                for vif in (0x7C, 0xFC): add(HDR + [0x0D, vif, n] + [0x61] * m + [2, 3, 4])
    for d in DIFS:                                                                # blocks that take the rest, fillers, anywhere
        for pre in ([], [1, 0x13, 9], [0x2F, 0x2F], [1, 0x13, 9, 0x2F]):
            for post in ([], [1], [0x2F] * 3, [1, 0x13, 9], rb(r, 20)): add(HDR + pre + [d] + post)
    for dif in (0x8F, 0x9F, 0xAF, 0x3F, 0x7F, 0x4F, 0x5F, 0x6F): add(HDR + [dif] + [1, 0x13] + [8] * 9)
    for n in range(0, 241, 1 if not k.quick else 7): add(HDR + [0x0F] + [n & 255] * (239 - n)); add(HDR + [0x2F] * n); add(HDR + [1, 0x13, 9] * (n // 3))
    for _ in range(2500 if k.quick else 25000):
        d = payload(r); m = r.randrange(5)
        if m == 0: d = d[:r.randrange(len(d) + 1)]
        elif m == 1 and len(d) > 12: d[r.randrange(12, len(d))] ^= 1 << r.randrange(8)
        elif m == 2 and len(d) > 12: d = d[:r.randrange(12, len(d) + 1)] + rb(r, r.randrange(30)); d = d[:252]
        elif m == 3 and len(d) > 13: i = r.randrange(12, len(d)); del d[i]
        add(d)
    for ci in (0x70, 0x71, 0x72, 0x73, 0x76, 0x77, 0x7A, 0x78, 0x51, 0, 255):     # other kinds of data, and telegrams that are no replies
        for c in (0x08, 0x18, 0x28, 0x38, 0x48, 0x53, 0x73, 0x00):
            for n in (0, 1, 15, 16, 17, 12, 40): add((HDR * 4)[:n], ci=ci, c=c)
    cs = list(cases.values()); k.pure(cs)
    return k.finish(assumptions=['payloads up to 252 bytes', 'all payloads the exhaustive segmentation model reaches (its alphabet has one byte of every class); every DIF, VIF and LVAR byte; extension chains 0..13; plain-text units of all critical lengths'])

def c14(k):
    k.build(); r = k.rng; cases = []
    k.model('MeaningModel')
    for f in range(4):
        for coding in range(16):
            for s in (0, 0x40):
                dif = coding | f << 4 | s
                if dif in (0x0F, 0x1F, 0x2F): cases.append(vdata(HDR + [dif, 1, 2, 3], 'info')); continue
                for dife in ([], [0], [0x55], [0x2A], [0x7F]): cases.append(vdata(HDR + rec(dif, 0x13, field(r, coding), dife), 'info'))
    for n in range(1, 11):                                # each bit of each extension alone, all but it, and all
        for s in (0, 0x40):
            for i in range(n):
                for bit in range(7):
                    e = [0] * n; e[i] = 1 << bit; cases.append(vdata(HDR + rec(1 | s, 0x13, [5], e), 'info'))
                    e = [0x7F] * n; e[i] ^= 1 << bit; cases.append(vdata(HDR + rec(1 | s, 0x13, [5], e), 'info'))
            for v in (0, 0x7F, 0x0F, 0x30, 0x40, 0x11): cases.append(vdata(HDR + rec(1 | s, 0x13, [5], [v] * n), 'info'))
    for n in range(128): cases.append(vdata(HDR + rec(1, 0x13, [5], [n]), 'info')); cases.append(vdata(HDR + rec(0x41, 0x13, [5], [0x0F, n]), 'info'))
    for _ in range(800 if k.quick else 8000):
        cases.append(vdata(HDR + sum((info_record(r) for _ in range(r.randrange(1, 6))), []), 'info'))
    k.pure(cases)
    return k.finish(assumptions=['0..10 extensions: every single bit, every single extension byte, and random combinations'])
def info_record(r):
    coding = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 14])
    dif = coding | r.choice([0, 0x40]) | r.randrange(4) << 4
    return rec(dif, r.choice([0x13, 0x03, 0x5B, 0x6E]), field(r, coding), rb(r, r.randrange(11)))

def c15(k):
    k.build(); r = k.rng; recs = []
    PLAIN = 0x6E
    def add(dif, vif, data, **kw): recs.append(rec(dif, vif, data, **kw))
    EDGE = [0, 1, 2, 9, 10, 15, 16, 0x7F, 0x80, 0x81, 0x99, 0xF0, 0xFE, 0xFF]
    for v in range(256): add(1, PLAIN, [v]); add(9, PLAIN, [v]); add(0x39, PLAIN, [v]); add(0x0D, 0x78, [1, v]); add(0x0D, 0x78, [0xE1, v]); add(0x0D, 0x78, [3, 0x41, v, 0x42])
    for n, coding in ((2, 2), (3, 3), (4, 4), (6, 6), (8, 7)):                      # integers
        for i in range(n):
            for v in EDGE:
                for bg in (0, 0xFF, 0x80): d = [bg] * n; d[i] = v; add(coding, PLAIN, d)
        for _ in range(60 if k.quick else 1500): add(coding, PLAIN, rb(r, n))
    for n, coding in ((1, 9), (2, 10), (3, 11), (4, 12), (6, 14)):                  # BCD
        for _ in range(60 if k.quick else 1500): add(coding | r.choice([0, 0x10, 0x20, 0x30]), PLAIN, bcd_data(r, n)); add(coding | 0x30, PLAIN, rb(r, n))
        for bg in (0, 0x99, 0x90, 9): add(coding, PLAIN, [bg] * n); add(coding, PLAIN, [bg] * (n - 1) + [0xF0 | bg & 15]); add(coding | 0x30, PLAIN, [0] * n); add(coding | 0x30, PLAIN, [0xFF] * n)
    for f in range(0, 1 << 32, 1 << 23): add(5, PLAIN, list(f.to_bytes(4, 'little'))); add(5, PLAIN, list((f | r.randrange(1 << 23)).to_bytes(4, 'little')))   # reals of every exponent
    for _ in range(100 if k.quick else 2000): add(5, PLAIN, rb(r, 4))
    for v in range(1 << 16) if not k.quick else list(range(0, 1 << 16, 97)) + [a | b << 8 for a in EDGE for b in range(256)]: add(2, 0x6C, [v & 255, v >> 8])    # type G dates
    F = [(0x6D, [], 4), (0x7D, [0x30], 4), (0x7D, [0x70], 4)]; I = [(0x6D, [], 6), (0x7D, [0x30], 6)]
    for vif, e, n in F + I:                                                           # types F and I, every value of every byte
        for i in range(n):
            for v in range(256):
                if vif != 0x6D and v % 7: continue
                d = rb(r, n)
                if r.random() < .8: d[1 if n == 6 else 0] &= 0x7F
                d[i] = v; add(4 if n == 4 else 6, vif, d, vife=e)
    for _ in range(200 if k.quick else 4000):
        d = rb(r, 4); d[0] &= 0x3F; add(4, 0x6D, d); d = rb(r, 6); d[1] &= 0x7F; add(6, 0x6D, d)
    for coding in (1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 14, 13, 0, 8, 15):              # date and time codes with every coding
        for vif, e in ((0x6C, []), (0x6D, []), (0x7D, [0x30]), (0x7D, [0x70]), (0x6C, [0x75]), (0x6D, [0x75])):
            for st in (0, 0x10, 0x40):
                dif = coding | st | (0x40 if coding == 15 else 0); add(dif, vif, field(r, coding), vife=e)
    for v in range(256):                                                              # variable length
        n = lvlen(v)
        for _ in range(2): add(0x0D, 0x78, [v] + [r.randrange(32, 127) for _ in range(n)])
        add(0x0D, 0x78, [v] + rb(r, n))
        if 1 < n < 100: t = [0x41] * n; t[r.randrange(n)] = 0; add(0x0D, 0x78, [v] + t)
    pays = []
    cur = list(HDR)
    for b in recs:                                                                    # as many records as fit in a telegram
        if len(cur) + len(b) > 252 or len(cur) > 100: pays.append(cur); cur = list(HDR)
        cur += b
    pays.append(cur)
    for n in range(0, 239, 5 if k.quick else 1): pays.append(HDR + [0x0F] + rb(r, n)); pays.append(HDR + [0x1F] + rb(r, n))
    for _ in range(300 if k.quick else 4000): pays.append(payload(r))
    k.pure([vdata(p, 'value') for p in pays])
    return k.finish(assumptions=['every value of every byte of dates and times; every real exponent; every LVAR byte; integers and BCD numbers of all widths with extreme and random contents', 'the text of not-a-number reals and of BCD numbers with invalid digits is not specified'])

NUMS = [(1, [5]), (1, [0xFB]), (2, [0x39, 0x30]), (4, [0x4E, 0x61, 0xBC, 0x00]), (7, [0xFF] * 7 + [0x7F]), (5, [0, 0, 0xC0, 0x3F]), (12, [0x78, 0x56, 0x34, 0x12]), (14, [0x99] * 6), (6, [1, 0, 0, 0, 0, 0x80]), (1, [0])]
def c16(k):
    k.build(); r = k.rng; recs = []
    k.model('MeaningModel')
    def add(vif, e=(), unit=None, nums=None):
        for coding, d in (nums or (r.sample(NUMS, 3) if k.quick else NUMS)): recs.append(rec(coding, vif, d, vife=e, unit=unit))
    for vif in range(128):
        if vif in (0x7B, 0x7C, 0x7D): continue
        add(vif); recs.append(rec(0x0D, vif, [3, 0x61, 0x62, 0x63])); recs.append(rec(0, vif, [])); recs.append(rec(8, vif, []))
        for e in list(range(0x70, 0x80)) + [0, 0x10, 0x6F, 0x22]: add(vif, [e], nums=r.sample(NUMS, 2) if k.quick else None); 
        add(vif, [r.randrange(128), r.choice([0x75, 0x7B, 0x7D])], nums=r.sample(NUMS, 1)); add(vif, [0x75, r.randrange(0x70, 0x80)], nums=r.sample(NUMS, 1))
    for vif in (0x7B, 0x7D):
        for e in range(128):
            add(vif, [e]); add(vif, [e, r.choice([0x70, 0x72, 0x7B, 0x7D])], nums=r.sample(NUMS, 1)); recs.append(rec(0x0D, vif, [3, 0x61, 0x62, 0x63], vife=[e]))
            recs.append(rec(4, vif, rb(r, 4), vife=[e]))
    for e in [None] + list(range(128)):
        for n in (0, 1, 5, 40, 127, 128) if e in (None, 0x70, 0x77, 0x7A) else (3,):
            u = [r.randrange(33, 127) for _ in range(n)]; add(0x7C, [] if e is None else [e], u, nums=r.sample(NUMS, 2))
    for vif in range(128): recs.append(rec(1, vif if vif not in (0x7B, 0x7C, 0x7D) else 3, [0], vife=[r.choice([0x78, 0x79, 0x7A, 0x7B])]))
    for _ in range(300 if k.quick else 6000):
        c = r.choice([1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 14]); v = r.choice([0x7B, 0x7D, r.randrange(0x7B), r.randrange(0x7B)]); recs.append(rec(c, v, field(r, c), vife=rb(r, r.choice([0, 1, 1, 2])) or ([1] if v >= 0x7B else [])))
    pays = []; cur = list(HDR)
    for b in recs:
        if len(cur) + len(b) > 252 or len(cur) > 70: pays.append(cur); cur = list(HDR)
        cur += b
    pays.append(cur)
    k.pure([vdata(p, 'unit') for p in pays])
    return k.finish(assumptions=['every primary code with every correction extension, every code of both extension tables, plain-text units', 'normalized values are compared within a relative 1e-12 (the library computes in binary floating point)'])

def c17(k):
    k.build(); r = k.rng; cases = []
    def fx(t1, t2, sta, v1, v2): return [0x78, 0x56, 0x34, 0x12, r.randrange(256), sta, t1, t2] + v1 + v2
    for t in range(256):
        for sta in ([0, 0x40, 0x80, 0xC0] if t < 64 or not k.quick else [r.choice([0, 0x80]), r.choice([0x40, 0xC0])]):
            bcd = sta < 0x80
            v = [bcd_data(r, 4, False) if bcd else rb(r, 4) for _ in range(2)]
            cases.append(vdata(fx(t, r.randrange(256), sta, v[0], v[1]), ci=0x73, norm=1)); cases.append(vdata(fx(r.randrange(256), t, sta, v[0], v[1]), ci=0x73, norm=1))
    for sta in range(256):
        bcd = sta < 0x80; v = [bcd_data(r, 4, False) if bcd else rb(r, 4) for _ in range(2)]; cases.append(vdata(fx(r.randrange(256), r.randrange(256), sta, v[0], v[1]), ci=0x73, norm=1))
    for bg in (0, 1, 0x7F, 0x80, 0x99, 0xFF):
        for i in range(4):
            for v in (0, 0x80, 0x7F, 0xFF, 0x90, 9): d = [bg] * 4; d[i] = v; cases.append(vdata(fx(5, 0x7F, 0x80, d, d[::-1]), ci=0x73, norm=1)); cases.append(vdata(fx(5, 0x25, 0, d, d[::-1]), ci=0x73, norm=1))
    for n in range(0, 253): cases.append(vdata(rb(r, n), ci=0x73, norm=1))
    for _ in range(300 if k.quick else 8000): cases.append(vdata(rb(r, 16), ci=0x73, norm=1)); cases.append(vdata(rb(r, 7)[:4] + rb(r, 1) + [r.choice([0, 0x40])] + rb(r, 2) + bcd_data(r, 4, False) + bcd_data(r, 4, False), ci=0x73, norm=1))
    k.pure(cases)
    docs = []
    for t in range(0, 256, 3):
        for sta in (0, 0x40, 0x80, 0xC0): docs.append([(8, 0x73, fx(t, (t * 7) % 256, sta, bcd_data(r, 4, False), rb(r, 4) if sta >= 0x80 else bcd_data(r, 4, False)))])
    xmlrun(k, docs)
    return k.finish(assumptions=['every unit code with every format and storage bit; all lengths 0..252', 'values of BCD counters with invalid digits are not specified'])

# ---------------------------------------------------------------- documents
def lines_of(t):
    if t is None or t == '%NULL': return {'has': 0}
    ls = t.split('%0A')
    if ls and ls[-1] == '': ls.pop()
    r = []
    for l in ls:
        e = {'s': l}; m = re.fullmatch(r'        <Value>(.*)</Value>', l)
        if m:
            e['v'] = 1; n = re.fullmatch(r'(-?)(\d+)\.(\d+)', m.group(1))
            if n and len(n.group(2)) < 400: e['n'] = {'s': 1 if n.group(1) else 0, 'd': [int(c) for c in n.group(2) + n.group(3)], 'f': len(n.group(3))}
        r.append(e)
    return {'has': 1, 'lines': r}
# at: when the telegrams were received, in seconds since 1970 (0: unknown)
def xml_case(ds, at=None):
    at = at or [START] * len(ds)
    return Case('xml', 'xml fr=' + ','.join(hx([c, ci] + list(d)) for c, ci, d in ds) + ' at=' + ','.join(map(str, at)),
                {'ds': [{'c': c, 'ci': ci, 'd': list(d), 'at': [t // 86400, t % 86400] if t else []} for (c, ci, d), t in zip(ds, at)]})
START = 1700000000
def xmlrun(k, docs):
    run_xml(k, [xml_case(d) for d in docs])
def run_xml(k, cases):
    k.run(cases)
    for c in cases:
        for f in ('chain', 'raw', 'norm'):
            if f in c.out: c.out[f] = lines_of(c.out[f])
    k.pure_done(cases)
def member(r, kinds='vvvvvefxb'):
    t = r.choice(kinds)
    if t == 'v': return (r.choice([8, 0x18, 0x28, 0x38]), 0x72, payload(r))
    if t == 'e': return (8, 0x70, [r.choice(list(range(12)) + [255])])
    if t == 'f': return (8, 0x73, rb(r, 16))
    if t == 'x': return (8, 0x72, payload(r)[:r.randrange(40)])
    return (r.choice([8, 0x48]), r.choice([0x71, 0x72, 0x73, 0x77, 0x70]), rb(r, r.randrange(40)))
def c18(k):
    k.build(); r = k.rng; docs = []
    for b in range(1, 256):                                     # every character, in texts, units and dumps
        docs.append([(8, 0x72, HDR + rec(0x0D, 0x78, [4, b, 0x41, b, b]) + rec(1, 0x7C, [5], unit=[b, 0x42, b]) + [0x0F, b])])
    for n in range(0, 230, 10 if k.quick else 1):                 # long texts of characters that grow when they are written
        for ch in (0x26, 0x41, 0x22, 0xE4):
            docs.append([(8, 0x72, HDR + [0x0D, 0x78, min(n, 191)] + [ch] * min(n, 191))]); docs.append([(8, 0x72, HDR + [0x0D, 0x7C, min(n, 128)] + [ch] * min(n, 128) + [90] + [ch] * 90)])
    for n in (0xF6, 0xF5, 0xEF): docs.append([(8, 0x72, HDR + [0x0D, 0x78, n] + rb(r, lvlen(n)))])
    for n in range(0, 240, 40 if k.quick else 3): docs.append([(8, 0x72, HDR + [r.choice([0x0F, 0x1F])] + rb(r, n))])
    for n in (0, 1, 5, 40, 80): docs.append([(8, 0x72, HDR + [1, 0x13, 9] * n)]); docs.append([(8, 0x72, HDR + [0x00, 0x13] * n)]); docs.append([(8, 0x72, HDR + [8, 0x13] * n)])
    for dife in range(11): docs.append([(8, 0x72, HDR + rec(0x44, 0x13, [1, 2, 3, 4], [0x7F] * dife))])
    for e in range(256): docs.append([(8, 0x70, [e])])
    docs.append([(8, 0x70, [])])
    for m in range(256): h = rb(r, 12); h[7] = m; docs.append([(8, 0x72, h)])
    for kind in ('v', 'e', 'f', 'x', 'b'):                        # chains: every kind in every place
        for other in ('v', 'e', 'f', 'x', 'b'):
            for place in range(3):
                ch = [member(r, 'v') for _ in range(3)]; ch[place] = member(r, kind); docs.append(ch)
                ch = [member(r, other) for _ in range(2)]; ch.insert(place, member(r, kind)); docs.append(ch)
    for n in (2, 3, 5, 9, 17): docs.append([(8, 0x72, HDR + [1, 0x13, 9] * r.randrange(6)) for _ in range(n)])
    for n in range(2, 18, 3 if k.quick else 1):                  # chains of nothing but long documents
        for ch, u, t in ((0x26, 60, 150), (0x22, 128, 90), (0x41, 128, 100), (0x3C, 0, 191), (0x26, 1, 20)):
            big = (8, 0x72, HDR + [0x0D, 0x7C, u] + [ch] * u + [t] + [ch] * t)
            docs.append([(8, 0x72, HDR)] + [big] * (n - 1)); docs.append([big] * n)
        docs.append([(8, 0x72, HDR + [0x0D, 0x7C, 1, 0x26, 1, 0x22] * 38)] * n); docs.append([(8, 0x72, HDR + [0x0F] + [0xFF] * 230)] * n)
    huge = (8, 0x72, HDR + [0x0D, 0x7C, 128] + [0x26] * 128 + [100] + [0x26] * 100)
    for m in range(0, 8): docs.append([(8, 0x72, HDR + [0, 0x13] * m)] + [huge] * (12 if k.quick else 40))       # the longest records at every place of a growing document
    for m in range(12, 42):
        for j in range(0, m + 1, 8 if k.quick else 2): docs.append([(8, 0x72, HDR + [0, 0x13] * (m - j) + [0, 0x78] * j + [0x0D, 0x78, 237 - 2 * m if 237 - 2 * m < 192 else 191] + [0x26] * min(191, 237 - 2 * m))])
    for _ in range(150 if k.quick else 3000): docs.append([member(r) for _ in range(r.choice([1, 1, 1, 2, 3, 4]))])
    for _ in range(200 if k.quick else 4000): docs.append([member(r, 'v') for _ in range(r.choice([1, 1, 2, 3]))])
    xmlrun(k, docs)
    return k.finish(assumptions=['telegrams of up to 252 data bytes, chains of up to 17 telegrams', 'documents are compared line by line with the specified document; characters above 127 are data of the declared ISO-8859-1 encoding'])

# ---------------------------------------------------------------- addresses, hexadecimal, numbers
def addr_case(t): return Case('addr', 'addr s=' + hx(t), {'s': list(t)})
def getaddr_case(d, ci=0x72, c=8): return Case('getaddr', 'getaddr d=%s ci=%d c=%d' % (hx(d), ci, c), {'d': list(d), 'ci': ci, 'c': c})
def c19(k):
    k.build(); r = k.rng; cases = {}
    def add(c): cases[c.cmd] = c
    H = b'0123456789ABCDEFabcdef'
    base = b'1449100110570106'
    for p in range(16):                                       # every character in every position
        for v in range(1, 256): t = bytearray(r.choice([base, b'FFFFFFFFFFFFFFFF', b'ffffffffffffffff', b'0000000000000000'])); t[p] = v; add(addr_case(t))
        for v in H: t = bytearray(base); t[p] = v; add(addr_case(t)); t = bytearray(b'F' * 16); t[p] = v; add(addr_case(t))
    for n in list(range(40)) + [100]: add(addr_case(b'1' * n)); add(addr_case((base * 8)[:n])); add(addr_case(b'F' * n))
    for s in (b' 449100110570106', b'+449100110570106', b'-449100110570106', b'0x49100110570106', b'14491001105701 6', b'144910011057010\n', b'\t', b''): add(addr_case(s))
    for _ in range(800 if k.quick else 20000): add(addr_case(bytes(r.choice(H) for _ in range(16)))); add(addr_case(bytes(r.choice(b'0123456789Ff') for _ in range(16))))
    for i in range(8):
        for v in range(256): d = list(HDR); d[i] = v; add(getaddr_case(d))
    for _ in range(400 if k.quick else 8000): add(getaddr_case(rb(r, 8) + HDR[8:] + r.choice([[], [1, 0x13, 9], random_record(r)])))
    for n in range(20): add(getaddr_case((HDR + [1, 0x13, 9, 1, 0x13, 9])[:n]))
    for ci in (0x70, 0x71, 0x72, 0x73, 0x76, 0x77): 
        for c in (8, 0x18, 0x48, 0x53):
            for n in (0, 1, 8, 11, 12, 16): add(getaddr_case((HDR + HDR)[:n], ci, c))
    k.pure(list(cases.values()))
    return k.finish(assumptions=['every byte value in every position of an address text and of the eight address bytes'])

def hex_case(s, n): return Case('hex2bin', 'hex2bin d=%s n=%d' % (hx(s), n), {'d': list(s), 'n': n})
def c22(k):
    k.build(); r = k.rng; cases = {}
    def add(s, n):
        c = hex_case(s, n); cases[c.cmd] = c
    o = k.model('HexModel')
    for t in re.findall(r'"CASE ([0-9a-f]*) (\d+)"', o): add(bytes.fromhex(t[0]), int(t[1]))
    for a in range(256):
        for b in (0x30, 0x46, 0x20, 0x67, 0, 0x0A): add(bytes([a, b]), 2); add(bytes([b, a]), 2); add(bytes([0x31, 0x32, a, b, 0x33, 0x34]), 4)
    for n in range(0, 20):
        for m in range(0, 12): add(b'0123456789ABCDEFabcdef'[:n], m)
    for _ in range(1500 if k.quick else 30000):
        s = bytes(r.choice(b'0123456789abcdefABCDEF \n\t') if r.random() < .97 else r.randrange(256) for _ in range(r.randrange(60)))
        if r.random() < .5: s = b' '.join(b'%02x' % r.randrange(256) for _ in range(r.randrange(20))) + r.choice([b'', b'\n', b' ', b'\r\n', b'0', b'zz'])
        add(s, r.choice([0, 1, 2, 5, 20, 64]))
    k.pure(list(cases.values()))
    return k.finish(assumptions=['all texts over one character of every class up to the bound of the exhaustive model, every byte value in both places of a pair'])

def num_case(n, v): return Case('num', 'num n=%d v=%d' % (n, v), {'n': n, 's': 1 if v < 0 else 0, 'm': [int(c) for c in str(abs(v))], 'v': v if v > -2**31 else -2**31 + 0})
def c26(k):
    k.build(); r = k.rng; cases = []
    for d in range(256): cases.append(vdata([d], ci=0x70, repack=1))
    for _ in range(150 if k.quick else 3000): cases.append(vdata(rb(r, 16), ci=0x73, repack=1))
    for _ in range(1200 if k.quick else 20000): cases.append(vdata(payload(r, idle=False), 'raw', repack=1))
    for n in (0, 1, 2, 31, 63, 64, 100, 127, 128):
        for vif, e in ((0x7C, []), (0x7C, [0x70]), (0x7C, [0x01] * 10)): cases.append(vdata(HDR + rec(1, vif, [5], vife=e, unit=[0x61 + j % 26 for j in range(n)]), 'raw', repack=1))
    for n in range(11):
        for m in range(11): cases.append(vdata(HDR + rec(0x44, 0x13, [1, 2, 3, 4], [0x11 * (j % 7) for j in range(n)], [0x70] * m), 'raw', repack=1))
    for v in range(256): 
        if 1 + lvlen(v) + 14 <= 252: cases.append(vdata(HDR + [0x0D, 0x78, v] + rb(r, lvlen(v)), 'raw', repack=1))
    for n in list(range(0, 239, 9)) + [238, 239]: cases.append(vdata(HDR + [0x0F] + rb(r, n), 'raw', repack=1)); cases.append(vdata(HDR + [0x1F] + rb(r, n), 'raw', repack=1)); cases.append(vdata(HDR + [1, 0x13] + rb(r, 1) + [0x1F] + rb(r, min(n, 236)), 'raw', repack=1))
    for n in range(80): cases.append(vdata(HDR + [1, 0x13, n] * n, 'raw', repack=1))
    M = 2**31
    for n in range(1, 9):
        vs = {0, 1, -1, 9, 10, -9, -10, M - 1, -M + 1, -M}
        for e in range(0, 11): vs |= {10**e, 10**e - 1, -10**e, -(10**e - 1), 10**e + 1}
        for e in range(0, 32): vs |= {2**e, 2**e - 1, -2**e, -2**e - 1, -2**e + 1}
        vs |= {r.randrange(-M, M) for _ in range(60)} | {r.randrange(-10**min(2 * n, 9), 10**min(2 * n, 9)) for _ in range(100)}
        for v in sorted(vs):
            if -M <= v < M: cases.append(num_case(n, v))
    for t in (b'ABB', b'abb', b'ACW', b'ZZZ', b'AAA', b'zzz', b'AZ', b'', b'A', b'AB1', b'1AB', b'A B', b'ABCD', b'AB[', b'@AB', b'{AB', b'ab`'): cases.append(Case('man', 'man s=' + hx(t), {'s': list(t)}))
    for a in range(65, 91):
        for _ in range(3): t = [a, r.randrange(65, 91), r.choice([r.randrange(65, 91), r.randrange(97, 123)])]; cases.append(Case('man', 'man s=' + hx(t), {'s': t}))
    for _ in range(200): t = rb(r, r.randrange(5)); t = [x or 1 for x in t]; cases.append(Case('man', 'man s=' + hx(t), {'s': t}))
    for a in range(256): b = r.randrange(256); cases.append(Case('manr', 'manr a=%d b=%d' % (a, b), {'a': a, 'b': b})); cases.append(Case('manr', 'manr a=%d b=%d' % (b, a), {'a': b, 'b': a}))
    k.pure(cases)
    return k.finish(assumptions=['integers of up to four bytes (the width of the interface), BCD numbers of up to eight bytes', 'error data of one byte; plain-text units without zero bytes'])

def look_case(man, ver, med, idh=0, err=0):
    m0, m1 = man & 255, man >> 8
    return Case('lookup', 'lookup m0=%d m1=%d ver=%d med=%d idh=000000%02x err=%d' % (m0, m1, ver, med, idh, err), {'h': [0, 0, 0, idh, m0, m1, ver, med, 0, 0, 0, 0], 'err': err})
def man_case(t): return Case('man', 'man s=' + hx(t), {'s': list(t)})
def c28(k):
    k.build(); r = k.rng; cases = {}
    def add(c): cases[c.cmd] = c
    o = k.model('NamesModel')
    listed = sorted({int(m) for m in re.findall(r'"CASE (\d+) ', o)})
    for t in re.findall(r'"CASE (\d+) (\d+) (\d+) (\d+)"', o): add(look_case(*map(int, t)))
    # every version and leading identification of the listed manufacturers, every medium, manufacturers one bit away
    for m in listed:
        for v in range(256): add(look_case(m, v, r.choice([0, 2, 3, 4, 6, 7, 15, r.randrange(256)]), r.choice([0, 0, r.randrange(256)])))
        for v in ([0, 1, 7, 16, 45, 57, 64, 113] if k.quick else range(256)):
            for med in (2, 4, 6, 15, 130, 34): add(look_case(m, v, med))
        for b in range(16):
            for _ in range(1 if k.quick else 8): add(look_case(m ^ (1 << b), r.choice([0, 1, 2, 3, 7, 8, 9, 16, 32, 64]), r.choice([2, 6, 15]), r.choice([0, 16, 48])))
    for m in listed:
        for h in range(0, 256, 1 if m in (0x4C43, 0x4CAF, 0x1E85) or not k.quick else 16): add(look_case(m, r.randrange(256), r.randrange(256), h))
    for med in range(256):
        for e in (med, -med, 256 + med, r.randrange(-2**31 + 1, 2**31)): add(look_case(r.randrange(65536), r.randrange(256), med, r.randrange(256), e))
    for e in list(range(-20, 300)) + [2**31 - 1, -2**31 + 1]: add(look_case(0, 0, 0, 0, e))
    # manufacturer codes: all 65536, or every value of each half with every letter of the other
    for a in range(256):
        for b in (range(256) if not k.quick else sorted({r.randrange(256) for _ in range(24)})): add(Case('manr', 'manr a=%d b=%d' % (a, b), {'a': a, 'b': b}))
    L = [65 + j for j in range(26)]
    for a in L:
        for b in L:
            for c in (L if not k.quick else r.sample(L, 4)): add(man_case([a | (32 if r.random() < .3 else 0), b | (32 if r.random() < .3 else 0), c | (32 if r.random() < .3 else 0)]))
    for p in range(3):
        for x in range(1, 256):
            t = [r.choice(L) | r.choice([0, 32]) for _ in range(3)]; t[p] = x; add(man_case(t)); add(man_case(t + [r.randrange(1, 256)]))
    for n in range(3):
        for _ in range(20): add(man_case([r.choice(L) for _ in range(n)]))
    for _ in range(60): add(man_case([r.choice(L) for _ in range(3)] + [r.randrange(1, 256) for _ in range(r.randrange(6))]))
    k.pure(list(cases.values()))
    return k.finish(assumptions=['the lists of products, media and errors are those the specification carries; a product that is added to the list is to be added to the specification'])
