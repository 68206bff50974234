"""C35: a refusal names what is wrong with what was refused."""
import re
from core import *
from sess import *
from checks_frame import rframe, img, SC, LC
from checks_master import cases_in, telegram
from checks_data import payload, rec, random_record, HDR, rb
import checks_handle

WORDS = [('none', r'^$|no errors'), ('checksum', 'checksum'), ('control', 'control code'), ('control information', 'control information'), ('type', 'frame type'), ('too much', 'too much'),
         ('too many DIFE', r'too many dife'), ('too many VIFE', r'too many vife'), ('unit too long', 'too long.*vif'), ('ends at unit', 'premature end.*variable length vif'), ('ends at DIF', r'premature end.*\bdif'),
         ('ends at VIF', r'premature end.*\bvif'), ('ends at data', r'premature end.*\bdata'), ('header', 'header'), ('direction', 'direction'), ('acknowledgement', 'acknowledg'), ('not variable', 'non-variable'),
         ('nothing', 'null pointer.*zero data'), ('empty', 'zero data'), ('address', 'address.*invalid|invalid.*address'), ('name', 'getaddrinfo'), ('connect', 'establish'), ('timeout', 'timeout'), ('closed', 'closed'),
         ('read', 'failed to read'), ('parse', 'failed to parse'), ('length', 'length'), ('stop', 'stop'), ('start', 'start')]
def plain(t): return re.sub(r'%([0-9A-F]{2})', lambda m: chr(int(m.group(1), 16)), t)
def hear(c, place=None):
    """the observation: what the complaint is about"""
    t = plain(c.out.pop('text') or ''); o = c.out
    if c.i['f'] in ('set', 'setnull'): o['w'] = [ord(x) for x in t]; return
    s = re.sub(r'^\w+: ', '', t).lower()
    o['what'] = 'none' if o['same'] else next((w for w, rx in WORDS if re.search(rx, s)), 'other')
    o['vals'] = [int(x, 16) for x in re.findall(r'0x([0-9a-f]+)', s)]
    o['place'] = int(bool(place) and place.split('.')[0].lower() in s)
def why(f, args, i, tag='', old=20): return Case('why', 'why f=%s old=%d %s' % (f, old, args), {'f': f, **i}, tag or f)
def w_parse(b, old=20): return why('parse', 'd=' + hx(b), {'d': list(b)}, old=old)
def w_verify(f, **ov):
    t = f[0]; i = {'t': t}; cmd = 't=%d' % t
    for key, v in zip(('c', 'a', 'ci'), f[1:4]): i[key] = v; cmd += ' %s=%d' % (key, v)
    if len(f) > 4: i['d'] = list(f[4]); cmd += ' d=' + hx(f[4])
    for a, b in ov.items(): cmd += ' %s=%d' % (a, b)
    return why('verify', cmd, i)
def w_data(d, ci=0x72, c=8, ack=0): return why('data', 'd=%s ci=%d c=%d%s' % (hx(d), ci, c, ' t=1' if ack else ''), {'d': list(d), 'ci': ci, 'c': c, 'ack': ack})
def w_getaddr(d, ci=0x72, c=8): return why('getaddr', 'd=%s ci=%d c=%d' % (hx(d), ci, c), {'d': list(d), 'ci': ci, 'c': c})
def w_addr(t): return why('addr', 's=' + t.encode('latin-1').hex(), {'s': codes(t)})
def w_recv(q): return why('recv', 'pre=' + istr(q), {'q': ijs(q)})
def w_connect(name, opens, place, port):
    return why('connect', 'place=%s port=%d open=%s' % (place.encode().hex(), port, opens), {'name': int(name), 'reached': int(opens.endswith('o')), 'to': place})
def w_set(t, old): return why('set', 's=' + t.encode('latin-1').hex(), {'s': codes(t)}, old=old)

def c35(k):
    k.build(); r = k.rng; q = k.quick; cs = []
    for j in cases_in(k.model('ReasonModel')): cs.append(w_parse(j['d']) if j['kind'] == 'telegram' else w_data(j['d']))
    if not k.quick: k.model('ReasonModel', 'ReasonModelDeep')
    # telegrams: every byte changed, every length
    base = [img((1,)), img((2, 0x5B, 5)), img((2, 0x40, 254)), img((3, 0x53, 1, 0x50)), img((4, 8, 1, 0x72, [1])), img((4, 0x73, 253, 0x52, list(range(8))))]
    for f in base:
        for p in range(len(f)):
            for v in (range(256) if not q or p in (0, len(f) - 1, len(f) - 2) else sorted({f[p] ^ 1, f[p] ^ 0x20, 0, 255, 0x68, 0x16, 0x10} | {r.randrange(256) for _ in range(12)})):
                g = list(f); g[p] = v; cs.append(w_parse(g, r.choice([1, 20, 500])))
        for n in range(len(f)): cs.append(w_parse(f[:n]))
        for v in (0, 0x16, 0xE5): cs.append(w_parse(f + [v]))
    for v in range(256): cs.append(w_parse([v])); cs.append(w_parse([0x68, v, v])); cs.append(w_parse([0x68, v, r.randrange(256)]))
    for _ in range(1500 if q else 20000):
        f = img(rframe(r)); m = r.randrange(5)
        for _ in range(r.choice([1, 1, 2, 3])): f[r.randrange(len(f))] ^= 1 << r.randrange(8)
        if m == 0: f = f[:r.randrange(len(f) + 1)]
        elif m == 1: f += [r.randrange(256) for _ in range(r.randrange(1, 10))]
        cs.append(w_parse(f, r.choice([1, 20, 500])))
    # telegrams put together by the caller
    vf = [(1,), (2, 0x40, 1), (2, 0x7B, 254), (3, 0x53, 1, 0x50), (4, 0x73, 253, 0x52, [0xFF] * 8), (4, 8, 0, 0x72, [1] * 252)]
    for f in vf:
        cs.append(w_verify(f))
        for key in ('s1', 's2', 'l1', 'l2', 'ck', 'st'):
            if f[0] == 1 and key != 's1' or f[0] == 2 and key in ('s2', 'l1', 'l2'): continue
            for v in range(0, 256, 3 if q else 1): cs.append(w_verify(f, **{key: v}))
        for _ in range(60):
            keys = ['s1'] if f[0] == 1 else ['s1', 'ck', 'st'] if f[0] == 2 else ['s1', 's2', 'l1', 'l2', 'ck', 'st']
            cs.append(w_verify(f, **{x: r.randrange(256) for x in r.sample(keys, r.randrange(1, len(keys) + 1))}))
    for c in range(256): cs.append(w_verify((2, c, 7))); cs.append(w_verify((3, c, 7, 0x72))); cs.append(w_verify((4, c, 7, 0x72, [5])))
    cs += [w_verify((t, 0x53, 1, 0x50)) for t in (0, 5, 77, 255)]
    # data
    for ci in range(256):
        for c in (8, 0x73): cs.append(w_data([1] * 16, ci, c)); cs.append(w_data([], ci, c)); cs.append(w_getaddr(HDR + [1, 0x13, 5], ci, c))
    for c in range(256): cs.append(w_data(HDR + [1, 0x13, 5], 0x72, c)); cs.append(w_data([7], 0x70, c)); cs.append(w_data([7] * 16, 0x73, c))
    for n in range(40): cs.append(w_data([1] * n, 0x73)); cs.append(w_data((HDR + [1, 0x13, 5] * 10)[:n])); cs.append(w_getaddr((HDR + [1, 0x13, 5] * 10)[:n])); cs.append(w_data(HDR[:n], ack=1))
    for n in range(8, 14):
        for tail in ([], [0], [0x13], [0x13, 5], [0, 0x13], [0, 0x13, 5]):
            cs.append(w_data(HDR + [0x81] + [0x80 + n] * n + tail)); cs.append(w_data(HDR + [1, 0x93] + [0x80 + n] * n + tail)); cs.append(w_data(HDR + [1, 0xFC, 3, 65, 66, 67] + [0x80 + n] * n + tail))
    for n in (0, 1, 2, 127, 128, 129, 130, 200, 255):
        for have in sorted({0, 1, n - 1, n, n + 1, n + 3, 60}):
            if have >= 0 and have < 230: cs.append(w_data(HDR + [1, 0x7C, n] + [65] * have)); cs.append(w_data(HDR + [1, 0xFC, n] + [65] * have))
    for v in range(256): cs.append(w_data(HDR + [0x0D, 0x13, v] + [65] * r.choice([0, 1, 5, 20, 100]))); cs.append(w_data(HDR + [v, 0x13] + [5] * r.randrange(9))); cs.append(w_data(HDR + [1, v] + [5] * r.randrange(4)))
    for _ in range(1500 if q else 20000):
        d = HDR + sum((random_record(r) for _ in range(r.choice([1, 2, 4]))), [])
        m = r.randrange(4)
        if m < 2: d = d[:r.randrange(8, len(d) + 1)]
        elif m == 2: d[r.randrange(12, len(d))] |= 0x80
        d = d[:252]; cs.append(w_data(d)); cs.append(w_getaddr(d)) if r.random() < .2 else None
    # addresses
    good = '14491001105701FF'
    for n in range(20): cs.append(w_addr((good + '0000')[:n]))
    for p in range(16):
        for v in list(range(1, 256, 4 if q else 1)) + [47, 48, 57, 58, 64, 65, 70, 71, 96, 97, 102, 103]: cs.append(w_addr(good[:p] + chr(v) + good[p + 1:]))
    # the network
    for _ in range(250 if q else 3000):
        b = telegram(r); b = list(b)
        if r.random() < .4: b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        b = b[:r.choice([len(b), len(b), r.randrange(len(b) + 1)])]
        if len(b) > 1 and b[0] not in (0x10, 0x68, 0xE5) : b = b[:1]
        items = []
        while b: n = r.choice([1, 2, 5, len(b)]); items.append(B(b[:n])); b = b[n:]
        if r.random() < .3 and items: items.insert(r.randrange(len(items) + 1), I)
        cs.append(w_recv(items + [r.choice([T, E, Z])]))
    for q0 in ([T], [E], [Z], [I, T], [B([0x68]), E], [B([0x10, 0x40]), T], [B([0x10, 0x40]), Z], [B([0x33])]): cs.append(w_recv(q0 if q0[-1] in (T, E, Z) else q0 + [T]))
    for place in ('gateway', 'meters.example.org', '192.168.2.7', 'g', 'fe80::1', 'a' * 40, 'b' * 50):
        for port in (1, 10001, 65535):
            for name, o in ((0, 'n'), (1, 'c' * 9), (1, 'o'), (1, 'k' * 9), (1, 'kc' * 5), (1, 'co'), (1, 'ko')): cs.append(w_connect(name, o, place, port))
    # texts of the caller's, of any length
    for n in (0, 1, 2, 100, 127, 128, 254, 255, 256, 500, 509, 510, 511, 512, 513, 600, 1023, 1024, 4000):
        for old in (1, 20, 505): cs.append(w_set(''.join(chr(r.randrange(33, 127)) for _ in range(n)), old))
    cs += [w_set(t, 20) for t in ('%s%n%d', '100 %', '%%', '"<&>"', '\xe4\xf6', '%5000d')]
    cs += [why('setnull', '', {}, old=n) for n in (1, 20, 300)] + [why('reset', '', {}, old=n) for n in (1, 20, 600)]
    k.run(cs)
    for c in cs:
        if c.out and 'text' in c.out: hear(c, c.i.get('to'))
    k.pure_done(cs)
    return k.finish(assumptions=['the words of a complaint are sorted into kinds; a complaint in other words counts as true when it is new and not empty', 'messages on a serial line go to standard error and are not judged'])
