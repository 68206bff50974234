"""C03-C12: the transports and the operations of a master."""
import json, re
from core import *
from sess import *

def chars(codes): return ''.join(map(chr, codes))
def op_of(x):
    """a call of the specification as a call of the driver"""
    o = x['op']
    if o in ('select', 'probe', 'selframe'): return {'select': select, 'probe': probe, 'selframe': selframe}[o](chars(x['m']))
    if o == 'scan': return scan(x['pos'], chars(x['m']))
    if o == 'rr': return rr(x['addr'], x['max'])
    if o == 'read': return readp(x['addr']) if x['prim'] else reads(chars(x['m']))
    if o == 'ping': return ping(x['addr'], x['purge'])
    if o == 'req': return req(x['addr'])
    if o == 'ud': return ud(x['addr'], x['d'], x['null'])
    if o == 'areset': return areset(x['addr'], x['sub'])
    if o == 'baud': return baud(x['addr'], x['rate'])
    if o == 'setaddr': return setaddr(x['addr'], x['new'])
    if o == 'send': f = x['f']; return send(f['t'], f.get('c', 0), f.get('a', 0), f.get('ci', 0), f.get('d', []))
    return {'recv': recv, 'recvn': recvn, 'sendn': sendn, 'drecv': drecv, 'purge': purge}[o]()
def items(q): return [(x['k'], x['d']) for x in q]
def cases_in(o):
    r = []
    for m in re.finditer(r'"CASE (\{.*\})"', o): r.append(json.loads(m.group(1).replace('\\"', '"')))
    return r
def model_cases(k, module, cfg=None, limit=None, cb=0, **kw):
    """explore a specification of operation and environment; its behaviours become executions of the code"""
    js = cases_in(k.model(module, cfg, **kw)); js.sort(key=lambda j: json.dumps(j, sort_keys=True))
    if limit and len(js) > limit: js = k.rng.sample(js, limit)
    return [session([op_of(x) for x in j['s']], tr=j['tr'], w=j['w'], sr=j['sr'], dr=j['dr'], rep=[items(q) for q in j['q']], pre=items(j.get('pre', [])), echo=j.get('echo', 1), cb=cb, tag=cfg or module) for j in js]

# ------------------------------------------------------------------ material for random histories
SECS = ['0765432111220106', '12345678AABB0102', '99999999FFFF0000', 'ffffffffffffffff', '0F6F432111220106', 'FFFFFFFFFFFFFFFF']
BADSECS = ['', '0', '076543211122010', '07654321112201061', '076543211122010G', ' 765432111220106', '0765432111220 06', 'XYZ', '%']
def hdr(r): return [r.randrange(256) for _ in range(8)] + [0x55, 0, 0, 0]
def vpay(r, more=False):
    out = []
    for _ in range(r.randrange(4)):
        d, n = r.choice([(1, 1), (2, 2), (4, 4), (0, 0), (6, 6), (7, 8), (0x8B, 3), (0x0D, 0), (0x2F, -1)])
        if n < 0: out += [0x2F]; continue
        out += [d] + ([r.randrange(128)] if d & 0x80 else []) + [r.choice([0x13, 0x06, 0x6D, 0x78])]
        if d == 0x0D: t = r.randrange(5); out += [t] + [r.randrange(32, 127) for _ in range(t)]
        else: out += [r.randrange(256) for _ in range(n)]
    return out + ([0x1F] + [r.randrange(256) for _ in range(r.choice([0, 0, 3]))] if more else [])
def answer(r, more=False): return rsp(r.randrange(251), hdr(r) + vpay(r, more), r.choice([8, 0x18, 0x28, 0x38]))
def damage(r, b):
    b = list(b); m = r.randrange(4)
    if m == 0: b[r.randrange(len(b))] ^= 1 << r.randrange(8)
    elif m == 1: b = b[:r.randrange(1, len(b) + 1)]
    elif m == 2: b = b + [r.randrange(256) for _ in range(r.randrange(1, 4))]
    else: b = [r.randrange(256)] + b
    return b
def telegram(r):
    return r.choice([lambda: ACK, lambda: short(r.choice([0x40, 0x5A, 0x7A, 0x5B, 0x7B]), r.randrange(256)), lambda: long_(r.choice([0x53, 0x73]), r.randrange(256), r.choice([0x51, 0x52, 0x50, 0xB8])),
                     lambda: long_(r.choice([0x53, 0x73]), 253, 0x52, [r.randrange(256) for _ in range(8)]), lambda: answer(r), lambda: answer(r, True),
                     lambda: long_(8, 3, 0x73, [r.randrange(256) for _ in range(16)]), lambda: long_(8, 3, 0x70, [r.randrange(12)]), lambda: long_(8, 3, 0x70), lambda: long_(0x18, 1, 0x72, [r.randrange(256) for _ in range(r.randrange(1, 253))])])()
def cut(r, b, marks=''):
    """the bytes in arbitrary pieces with events between them"""
    out = []; i = 0
    while i < len(b):
        n = r.choice([1, 1, 2, 3, 5, 9, 300]); out.append(B(b[i:i+n])); i += n
        if marks and r.random() < .15: out.append((r.choice(marks), []))
    return out
def reaction(r, tr):
    m = r.randrange(14); T_, E_ = ('T', []), ('E', [])
    if m <= 2: return [B(ACK)]
    if m == 3: return []
    if m == 4: return [T_]
    if m == 5: return [B(ACK), B(ACK)]
    if m == 6: return cut(r, answer(r))
    if m == 7: return cut(r, answer(r, True))
    if m == 8: return cut(r, damage(r, answer(r)))
    if m == 9: return [B([r.randrange(256) for _ in range(r.randrange(1, 8))])]
    if m == 10: return [B(ACK), T_] + cut(r, answer(r))
    if m == 11: return cut(r, telegram(r)) + cut(r, telegram(r))
    if m == 12: return [E_] if r.random() < .4 else cut(r, telegram(r), 'TI' if tr == 'tcp' else 'T')
    return cut(r, telegram(r))
def random_session(r, ops, n=3, cb=0):
    tr = r.choice(['tcp', 'ser'])
    pre = [] if r.random() < .7 else cut(r, telegram(r), 'T')
    w = '' if r.random() < .7 else ''.join(r.choice('ooooofs') for _ in range(6))
    tty = 0 if tr == 'ser' and r.random() < .03 else 1
    return session([r.choice(ops)(r) for _ in range(r.randrange(1, n + 1))], tr=tr, pre=pre, rep=[reaction(r, tr) for _ in range(24)], w=w, tty=tty, echo=r.choice([0, 1, 1, 1, 2]),
                   sr=r.choice([0, 1, 2, 9]), dr=r.choice([0, 1, 3, 9]), cb=cb, fcb=r.choice([0, 1, 1, 1]), tag='random')
def addr(r): return r.choice([r.randrange(256), r.randrange(251), 253, 254, 255, 0, 256, -1, 1000, -2147483648, 2147483647])
def sec(r): return r.choice(SECS) if r.random() < .9 else r.choice(BADSECS)
SIMPLE = [lambda r: ping(addr(r), r.randrange(2)), lambda r: req(addr(r)), lambda r: ud(addr(r), [r.randrange(256) for _ in range(r.choice([0, 1, 3, 20, 252, 253]))], r.random() < .1),
          lambda r: areset(addr(r), r.choice([-1, 0, 1, 255, 256, -7, 77])), lambda r: baud(addr(r), r.choice([300, 600, 1200, 2400, 4800, 9600, 19200, 38400, 0, -1, 1000, 115200])),
          lambda r: setaddr(addr(r), addr(r)), lambda r: selframe(sec(r))]

def c03(k):
    k.build(); r = k.rng
    sym = {300: ('T', []), 301: ('I', []), 302: ('E', []), 303: ('Z', [])}
    js = cases_in(k.model('RecvModel')); js.sort(key=str)
    k.model('RecvModel', 'RecvModelWide' if k.quick else 'RecvModelDeep')
    if k.quick: js = r.sample(js, min(len(js), 3000))
    cs = []
    for j in js:
        pre = []; st = list(j['all'])
        for n in j['cut']:
            if n > 0: pre.append(B(st[:n])); st = st[n:]
            else: pre.append(sym[st[0]]); st = st[1:]
        while st:
            if st[0] < 256: pre.append(B([st[0]]))
            else: pre.append(sym[st[0]])
            st = st[1:]
        cs.append(session([drecv()] + ([drecv()] if r.random() < .3 else []), tr=j['tr'], pre=pre, tag='RecvModel'))
    for tr in ('tcp', 'ser'):
        for base in (short(0x5B, 5), long_(8, 1, 0x72, [7] * 252), long_(8, 1, 0x70), ACK, long_(0x18, 1, 0x72, list(range(60)))):
            for n in (sorted({0, 1, 2, 3, 4, 5, 6, len(base) - 2, len(base) - 1, len(base)}) if k.quick else range(len(base) + 1)):
                n = max(0, min(n, len(base)))
                for mk in ([], [T], [E], [I], [Z], [T, T], [T, T, T], [I, I, T], [T, I]):
                    cs.append(session([drecv(), drecv()], tr=tr, pre=([B(base[:n])] if n else []) + mk + ([B(base[n:])] if n < len(base) else []) + [B(ACK)], tag='event within'))
        for b0 in range(256): cs.append(session([drecv(), drecv(), drecv()], tr=tr, pre=[B([b0]), B(short(0x40, 3))], tag='first byte'))
        for l in range(0, 256, 1 if not k.quick else 5): cs.append(session([drecv(), drecv()], tr=tr, pre=[B([0x68]), B([l, l]), B([0x68, 8, 1, 0x72] + [3] * max(0, l - 3)), B([(8 + 1 + 0x72 + 3 * max(0, l - 3)) & 255, 0x16])], tag='length'))
        cs.append(session([drecv()], tr=tr, tag='nothing')); cs.append(session([drecv(), drecv()], tr=tr, tty=0, pre=[B(ACK)], tag='no terminal'))
    for _ in range(1200 if k.quick else 12000):
        tr = r.choice(['tcp', 'ser']); b = []
        for _ in range(r.randrange(1, 4)): t = telegram(r); b += damage(r, t) if r.random() < .3 else t
        cs.append(session([drecv() for _ in range(r.randrange(1, 5))], tr=tr, pre=cut(r, b, r.choice(['', '', 'T', 'TI', 'TIE', 'TIEZ'] if tr == 'tcp' else ['', 'T', 'T', 'TE', 'TEI'])), tag='random'))
    k.sessions(cs)
    return k.finish(assumptions=['a serial line does not deliver an end of stream'])

def c04(k):
    k.build(); r = k.rng
    cs = model_cases(k, 'MasterModel', 'MM_probe', 600 if k.quick else None, cb=1)
    fr = [(1, 0, 0, 0, [])] + [(2, c, a, 0, []) for c in (0x40, 0x5B, 0x7B, 0, 255, 8) for a in (0, 5, 255)] + [(3, 0x53, a, ci, []) for a in (0, 255) for ci in (0x50, 0xB8, 0)]
    fr += [(4, c, a, 0x51, [n & 255] * n) for c in (0x53, 0x73, 8) for a in (1, 253) for n in (1, 2, 100, 251, 252, 253 - 1)]
    fr += [(t, 0x53, 1, 0x50, [1]) for t in (0, 5, 77)] + [(4, 0x53, 1, 0x51, [])]
    fr += [(r.choice([1, 2, 3, 4]), r.randrange(256), r.randrange(256), r.randrange(256), [r.randrange(256) for _ in range(r.randrange(1, 253))]) for _ in range(200 if k.quick else 3000)]
    for f in fr:
        f = (f[0], f[1], f[2], f[3], f[4] if f[0] in (4,) or f[0] > 4 else [])
        for tr in ('tcp', 'ser'):
            for w in ('', 'f', 's'):
                cs.append(session([send(*f)], tr=tr, w=w, cb=r.choice([1, 1, 0]), tag='send'))
            cs.append(session([send(*f), sendn(), send(*r.choice(fr[:30]))], tr=tr, w=r.choice(['', 'os', 'of', 'so', 'fo']), cb=1, tty=r.choice([1, 1, 1, 0]), rep=[cut(r, telegram(r))], tag='send twice'))
    for _ in range(800 if k.quick else 10000):
        tr = r.choice(['tcp', 'ser']); b = []
        for _ in range(r.randrange(1, 4)): t = telegram(r); b += damage(r, t) if r.random() < .3 else t
        cs.append(session([r.choice([recv, drecv, recv, purge])() for _ in range(r.randrange(1, 5))], tr=tr, pre=cut(r, b, r.choice(['', 'T', 'TE'])), cb=r.choice([1, 1, 1, 0]), echo=r.randrange(3), tag='receive'))
    for _ in range(400 if k.quick else 5000): cs.append(random_session(r, SIMPLE + [lambda r: recv(), lambda r: select(sec(r)), lambda r: rr(r.randrange(251), r.choice([0, 2]))], 5, cb=r.choice([1, 1, 0])))
    k.sessions(cs)
    return k.finish()

def c05(k):
    k.build(); r = k.rng
    cs = model_cases(k, 'EchoModel', None, 2500 if k.quick else None)
    if not k.quick: k.model('EchoModel', 'EchoModelDeep')
    for _ in range(1200 if k.quick else 12000):
        tr = r.choice(['tcp', 'ser']); b = []
        for _ in range(r.randrange(1, 6)): t = telegram(r); b += damage(r, t) if r.random() < .15 else t
        cs.append(session([r.choice([recv, recv, purge, recvn])() for _ in range(r.randrange(1, 6))], tr=tr, pre=cut(r, b, r.choice(['', '', 'T', 'TE' if tr == 'ser' else 'TEI'])), echo=r.randrange(3), cb=0, tag='random'))
    for e in (0, 1, 2):
        for c in range(256):
            for tr in ('tcp', 'ser'): cs.append(session([recv(), recv()], tr=tr, echo=e, cb=0, pre=[B(short(c, 1)), B(long_(c, 1, 0x72, [1, 2])), B(ACK), B(answer(r))], tag='direction'))
    k.sessions(cs)
    return k.finish()

def c06(k):
    k.build(); r = k.rng
    k.model('RequestModel')
    A = list(range(-2, 259)) + [1000, -1000, 65536 + 5, -2147483648, 2147483647]
    cs = []
    def add(ops, **kw):
        for tr in ('tcp', 'ser'): cs.append(session(ops, tr=tr, cb=0, **kw))
    def chunks(l, n=8): return [l[i:i+n] for i in range(0, len(l), n)]
    for a in chunks(A): add([ping(x) for x in a]); add([req(x) for x in a]); add([setaddr(x, 5) for x in a]); add([setaddr(7, x) for x in a]); add([areset(x, -1) for x in a]); add([baud(x, 2400) for x in a]); add([ud(x, [1, 2]) for x in a])
    for a in chunks(list(range(-3, 260)) + [65535, 65536, 2147483647, -2147483648]): add([areset(5, x) for x in a])
    for a in chunks([300, 600, 1200, 2400, 4800, 9600, 19200, 38400] + sorted({x + d for x in (300, 600, 1200, 2400, 4800, 9600, 19200, 38400) for d in (-1, 1)}) + [0, 1, -1, -300, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 57600, 115200, 65836, 0xB8, 2147483647]):
        for ad in (0, 253, 255): add([baud(ad, x) for x in a])
    for n in (range(0, 256) if not k.quick else list(range(0, 12)) + list(range(12, 245, 9)) + list(range(245, 256))): add([ud(r.randrange(256), [r.randrange(256) for _ in range(n)])])
    add([ud(3, [1], 1)]); add([ud(3, [], 1)])
    for m in SECS + BADSECS: add([selframe(m), select(m)])
    for p in range(16):
        for ch in '0129ABCDEFGabcdefg/:@`Zz!{~-':
            m = list('0123456789012345'); m[p] = ch; add([selframe(''.join(m))])
    for _ in range(300 if k.quick else 4000): add([selframe(''.join(r.choice('0123456789abcdefABCDEF' + ('gx' if r.random() < .1 else '')) for _ in range(r.choice([16, 16, 16, 16, 15, 17])))) for _ in range(4)])
    for _ in range(600 if k.quick else 6000): cs.append(random_session(r, SIMPLE, 4))
    k.sessions(cs)
    return k.finish()

def c07(k):
    k.build(); r = k.rng
    cs = model_cases(k, 'MasterModel', 'MM_select')
    for m in SECS + BADSECS:
        for tr in ('tcp', 'ser'): cs.append(session([select(m)], tr=tr, rep=[[B(ACK)]], cb=0, tag='mask'))
    for p in range(16):
        for ch in '09afAFgG/:': m = list('0123456789012345'); m[p] = ch; cs.append(session([select(''.join(m))], rep=[[B(ACK)]], cb=0))
    for b0 in range(256):
        for tr in ('tcp', 'ser'): cs.append(session([select(SECS[0])], tr=tr, rep=[[B([b0])]], cb=0)); cs.append(session([select(SECS[0])], tr=tr, rep=[[B([0xE5, b0])]], cb=0))
    for _ in range(1500 if k.quick else 15000): cs.append(random_session(r, [lambda r: select(sec(r))], 3))
    k.sessions(cs)
    return k.finish()

def c08(k):
    k.build(); r = k.rng
    cs = model_cases(k, 'MasterModel', 'MM_probe')
    for n in range(10):
        for d in range(n + 2):
            for tr in ('tcp', 'ser'):
                cs.append(session([probe(SECS[0])], tr=tr, sr=n, rep=[[]] * d + [[B(ACK)], cut(r, answer(r))], cb=0, tag='retries'))
    for _ in range(1500 if k.quick else 15000): cs.append(random_session(r, [lambda r: probe(sec(r))], 2))
    for _ in range(600 if k.quick else 6000):       # a device is there, and something else may be
        rep = [[] for _ in range(r.randrange(3))] + [[B(ACK)], r.choice([cut(r, answer(r)), cut(r, answer(r)) + cut(r, telegram(r)), cut(r, telegram(r)), cut(r, damage(r, answer(r))), cut(r, answer(r), 'T')])]
        cs.append(session([probe(sec(r))], tr=r.choice(['tcp', 'ser']), sr=r.choice([0, 1, 2]), rep=rep, cb=0, fcb=r.choice([0, 1, 1]), tag='found'))
    k.sessions(cs)
    return k.finish()

def pop_of(secs, tel='01030a'): return ';'.join('%d:%s:%s' % (p, bytes(s).hex(), tel) for p, s in secs)
def sec_of_text(t): b = bytes.fromhex(t); return list(b[3::-1]) + list(b[4:])
def c09(k):
    k.build(); r = k.rng
    js = cases_in(k.model('ScanModel')); js.sort(key=str)
    if not k.quick: k.model('ScanModel', 'ScanModelDeep')
    if k.quick: js = r.sample(js, min(len(js), 1000))
    cs = []
    for j in js: cs.append(scan_case(chars(j['s']['m']), j['s']['pos'], [(n + 1, s) for n, s in enumerate(j['pop'])], j['cm'], w=''.join(j['w']), fcb=1, sr=0, tag='ScanModel'))
    for _ in range(60 if k.quick else 1200):
        base = ''.join(r.choice('0123456789') for _ in range(16)); pos = r.choice([0, 0, 1, 2, 4, 6, 7, 8, 12, 14, 15]); width = r.choice([1, 2, 3, 4])
        devs = set()
        for _ in range(r.randrange(0, 6)):
            d = list(base)
            for q in range(pos, min(16, pos + width)):
                if r.random() < .7: d[q] = r.choice('0123456789')
            if r.random() < .2: d[r.randrange(16)] = r.choice('0123456789')
            devs.add(''.join(d))
        m = list(base)
        for q in range(pos, min(16, pos + width)): m[q] = r.choice('FFFf') if r.random() < .9 else m[q]
        if r.random() < .3: m = list(base[:pos]) + ['F'] * (16 - pos) if len(devs) < 4 else m
        cs.append(scan_case(''.join(m), pos, [(n + 1, sec_of_text(d)) for n, d in enumerate(sorted(devs))], r.choice([0, 1, 2]), w='' if r.random() < .8 else 'o' * r.randrange(30) + r.choice('fs'), fcb=r.choice([0, 1, 1, 1]), sr=r.choice([0, 0, 1]), tr=r.choice(['tcp', 'ser']), tag='random population'))
    for m, p in (('FFFF', 0), ('', 0), ('0123456789012345', 0), ('0123456789012345', 15), ('012345678901234F', 15), ('FFFFFFFFFFFFFFFF', 16), ('FFFFFFFFFFFFFFFF', -1), ('FFFFFFFFFFFFFFFF', 99), ('F123456789012345', 0)):
        for secs in ([], [(1, sec_of_text('0123456789012345'))]): cs.append(scan_case(m, p, secs, 0))
    k.sessions(cs, 'TraceScan')
    cs = []
    for _ in range(60 if k.quick else 600):          # devices that do not behave
        cs.append(session([scan(r.choice([14, 15]), r.choice(['01234567890123FF', '012345678901234F', 'FFFFFFFFFFFFFFFF']))], tr=r.choice(['tcp', 'ser']), rep=[reaction(r, 'tcp') for _ in range(60)], sr=r.choice([0, 1]), cb=0, fcb=r.choice([0, 1]), tag='any reactions'))
    k.sessions(cs)
    return k.finish(assumptions=['the wired superposition of the answers of different slaves is not itself a valid telegram', 'addresses are decimal and pairwise different'])
def scan_case(m, pos, secs, cm, tr='tcp', w='', fcb=1, sr=0, tag=''):
    c = session([scan(pos, m)], tr=tr, w=w, pop=pop_of(secs), cm=cm, cb=0, fcb=fcb, sr=sr, tag=tag)
    c.i['cm'] = cm; c.i['pop'] = [{'prim': p, 'sec': list(s), 'tel': [[1, 3, 10]], 'sel': False, 'fcb': -1, 'ix': 1} for p, s in secs]
    return c

def c10(k):
    k.build(); r = k.rng
    cs = model_cases(k, 'LossModel', None, 3000 if k.quick else None)
    k.model('LossModel', 'LossModelDeep')
    for _ in range(400 if k.quick else 6000): cs.append(lossy(r))
    k.sessions(cs)
    return k.finish(assumptions=['a late answer arrives while a repetition of the same request is being answered'])
def lossy(r):
    """a slave with many telegrams on a line that loses things"""
    n = r.choice([1, 2, 3, 6, 12, 20]); dr = r.choice([0, 1, 2, 3, 9]); mx = r.choice([0, 0, -1, n, n - 1, 1, 16, 30])
    tel = [[1, 3, i] + [4, 0x13, r.randrange(256), 0, 0, 0] * r.randrange(3) + ([0x1F] if i < n - 1 else []) for i in range(n)]
    h = hdr(r); ix, fcb, want = 0, -1, 1; rep = []; lost = 0; late = []; tr = r.choice(['tcp', 'ser'])
    for _ in range(n * (dr + 1) + 3):
        ev = r.choice(['ok', 'ok', 'ok', 'req', 'ans', 'dam', 'cut', 'late'])
        if lost >= dr and r.random() < .95: ev = 'ok'
        if ev != 'req':
            if fcb >= 0 and want != fcb: ix = (ix + 1) % n
            fcb = want
        a = rsp(5, h + tel[ix]); out = {'ok': a, 'req': [], 'ans': [], 'late': [], 'dam': a[:-2] + [a[-2] ^ 1, 0x16], 'cut': a[:-3]}[ev]
        if ev == 'late' and late: ev = 'ok'; out = a
        q = late + out; ok = ev == 'ok' or late; late = a if ev == 'late' else []
        rep.append(cut(r, q)); lost = 0 if ok else lost + 1
        if ok: want = 1 - want
    return session([rr(5, mx)], tr=tr, rep=rep, dr=dr, cb=0, tag='lossy line')

def c11(k):
    k.build(); r = k.rng
    cs = model_cases(k, 'MasterModel', 'MM_rr', 2500 if k.quick else None)
    for mx in (-2147483648, -5, -1, 0, 1, 2, 3, 5, 16, 17):
        for n in (0, 1, 2, 3, 5, 18):
            for tr in ('tcp', 'ser'):
                rep = [cut(r, rsp(5, hdr(r) + [1, 3, i, 0x1F])) for i in range(n)] + [cut(r, rsp(5, hdr(r) + [1, 3, 9]))]
                cs.append(session([rr(5, mx)], tr=tr, rep=rep, cb=0, tag='limit'))
    for dr in range(10):
        for n in range(dr + 2):
            for bad in ([], [B([0x00])], [B(rsp(5, hdr(r))[:-1] + [0])]):
                cs.append(session([rr(5, 0)], tr='ser', dr=dr, rep=[bad] * n + [cut(r, rsp(5, hdr(r) + [0x1F]))] + [bad] * dr + [cut(r, rsp(5, hdr(r)))], cb=0, tag='retries'))
    for a in (-1, 256, 0, 253, 255, 1000): cs.append(session([rr(a, 0)], rep=[cut(r, answer(r))], cb=0))
    for _ in range(1500 if k.quick else 15000): cs.append(random_session(r, [lambda r: rr(addr(r) if r.random() < .2 else r.randrange(251), r.choice([0, 0, 1, 2, 3, -1, 16]))], 2))
    k.sessions(cs)
    return k.finish()

def c12(k):
    k.build(); r = k.rng
    cs = model_cases(k, 'MasterModel', 'MM_read')
    for a in list(range(-2, 259)) + [1000, -1000]: cs.append(session([readp(a)], tr=r.choice(['tcp', 'ser']), rep=[cut(r, answer(r))], cb=0, tag='address'))
    for m in SECS + BADSECS:
        for rep in ([[B(ACK)], cut(r, answer(r))], [[B(ACK), B(ACK)], cut(r, answer(r))], [[], cut(r, answer(r))], [[B([0])], cut(r, answer(r))], [[B(ACK)], []], [cut(r, answer(r)), cut(r, answer(r))]):
            for tr in ('tcp', 'ser'): cs.append(session([reads(m)], tr=tr, rep=rep, cb=0, tag='secondary'))
    for _ in range(1500 if k.quick else 15000): cs.append(random_session(r, [lambda r: readp(addr(r)), lambda r: reads(sec(r)), lambda r: reads(sec(r))], 3))
    k.sessions(cs)
    return k.finish()
