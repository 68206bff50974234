"""C31: what is shown for diagnosis."""
import re
from core import *
from sess import *
from checks_master import random_session, cases_in, SIMPLE, addr, sec, SECS, answer, cut, hdr, vpay, telegram, reaction
from checks_data import payload, rec, random_record, field, HDR, rb, member
from checks_frame import rframe, SC, LC
import checks_tools
from checks_tools import tool, people, someone, mask_for, reactions, NUMS, raw_text, TOOL

def pairs(t):
    """the fields of a text: name and value of every line"""
    out = []
    for l in t.split('%0A'):
        l = re.sub(r'^\w+: ', '', l)
        if not l.strip(): continue
        a, _, b = l.partition('=') if '[size=' not in l else (l[:l.index(']') + 1], '', l[l.index(']') + 1:].lstrip(' ='))
        a = a.strip(); out.append([a, b.strip()])
    # the function of what is no value is not specified
    for j in range(len(out) - 3):
        if out[j][0] == 'DIF' and out[j][1] in ('0F', '1F') and out[j + 3][0] == 'DIF.Function': out[j + 3][1] = '-'
    return out
def dprint(d, ci=0x72, c=8, tag=''): return Case('dprint', 'dprint d=%s ci=%d c=%d' % (hx(d), ci, c), {'d': list(d), 'ci': ci, 'c': c}, tag)
def fprint(fs, tag=''):
    def one(f): t, c, a, ci, d = f; return '%d:%d:%d:%d:%s' % (t, c, a, ci, hx(d))
    return Case('fprint', 'fprint f=' + ';'.join(map(one, fs)), {'fs': [{'t': t, 'c': c, 'a': a, 'ci': ci, 'd': list(d)} for t, c, a, ci, d in fs]}, tag)
def telegrams(t):
    out = []
    for l in t.split('%0A'):
        if not l: continue
        m = re.fullmatch(r'\w+: .*\[type (\d+), (\d+) bytes\]: ((?:[0-9A-F]{2} )*)', l)
        out.append({'t': int(m.group(1)), 'n': int(m.group(2)), 'd': list(bytes.fromhex(m.group(3)))} if m else {'line': l})
    return out
def hexdump(d, label='RECV', now=1700000000):
    return Case('hexdump', 'hexdump now=%d%s%s' % (now, '' if label is None else ' label=' + label.encode().hex(), '' if d is None else ' d=' + hx(d)), {'d': list(d or []), 'label': label or '', 'now': now, 'none': int(d is None or label is None)})

def frame(f): f = list(f) + [0, 0, 0, 0, []][len(f):] ; return (f[0], f[1], f[2], f[3], f[4])
def dumps(c):
    """the session with the library's own dumps for callbacks"""
    assert ' cb=1 ' in c.cmd; c.cmd = c.cmd.replace(' cb=1 ', ' cb=2 ', 1); return c
DUMPING = {'ser': ['scan', 'scan2', 'set', 'read', 'readall'], 'tcp': ['scan', 'read', 'readall', 'reset', 'raw']}
def tool_shape(c):
    s = checks_tools.shape(c); x = s['ev'][-1]
    return {**s, 'ev': [e for e in c.out['ev'] if e['e'] in ('tx', 'txfail', 'scb', 'rcb', 'baddump')] + [x]}

def c31(k):
    k.build(); r = k.rng; cs = []
    # fields of replies
    q = k.quick
    for dif in range(256):
        if dif in (0x2F,): continue
        cs.append(dprint(HDR + [dif] + ([0x55] if dif & 0x80 else []) + [0x13] + field(r, dif & 15) if dif & 15 != 15 else HDR + [dif] + ([0x55, 0x13] if dif & 0x80 else [0x13]) + rb(r, 8)))
    for v in range(256):
        cs.append(dprint(HDR + [0x81] + [v, 0x13, 5] if v < 128 else HDR + [0x81, v, 1, 0x13, 5])); cs.append(dprint(HDR + ([1, v, 5] if v < 128 else [1, v, 0x15, 5])))
        cs.append(dprint(HDR + ([1, 0x93, v, 5] if v < 128 else [1, 0x93, v, 0x15, 5]))); cs.append(dprint([v] * 4 + [r.randrange(256), r.randrange(256), v, v, v, v, v, v ^ 255]))
        cs.append(dprint(HDR[:4] + [v, r.randrange(256)] + HDR[6:])); cs.append(dprint(HDR[:7] + [v] + HDR[8:])); cs.append(dprint([v], ci=0x70))
        cs.append(dprint(rb(r, 4) + [v, v] + rb(r, 10), ci=0x73)); cs.append(dprint(rb(r, 6) + [v, r.randrange(256)] + rb(r, 8), ci=0x73)); cs.append(dprint(rb(r, 6) + [r.randrange(256), v] + rb(r, 8), ci=0x73))
        cs.append(dprint(rb(r, 5) + [r.choice([0, 0x80, 0xC0, 0x40])] + rb(r, 2) + [v] * 4 + [0, 0, 0, v], ci=0x73))
    for n in range(11): cs.append(dprint(HDR + rec(1, 0x13, [5], rb(r, n), rb(r, n)))); cs.append(dprint(HDR + rec(1, 0x13, [5], [0x7F] * n, [0] * (10 - n))))
    for s in (0x0F, 0x1F):
        for n in (0, 1, 2, 50, 200): cs.append(dprint(HDR + [s] + rb(r, n))); cs.append(dprint(HDR + [1, 0x13, 9, s] + rb(r, n)))
    for v in list(range(0, 230, 7)) + list(range(0xC0, 0x100)): cs.append(dprint(HDR + [0x0D, 0x78, v] + [65] * (__import__('checks_data').lvlen(v)) + [1, 0x13, 9]))
    for _ in range(1200 if q else 15000):
        c, ci, d = member(r, 'vvvvvvvfexb'); cs.append(dprint(d, ci, c))
    k.run(cs)
    for c in cs:
        if 'text' in c.out: c.out['lines'] = pairs(c.out.pop('text'))
    k.pure_done(cs)
    # telegrams of chains
    cs = []
    for n in range(253): cs.append(fprint([(4, r.choice(LC), r.randrange(256), r.randrange(256), rb(r, n) if n else [1])]))
    for c in range(256): cs.append(fprint([(2, c, 5, 0, []), (1, 0, 0, 0, []), (3, c, r.randrange(256), 0x50, []), (4, c, 254, 0x72, [c])]))
    for t in range(9): cs.append(fprint([(1, 0, 0, 0, []), (t, 0x53, 1, 0x50, [1, 2] if t == 4 else []), (2, 0x40, 9, 0, [])]))
    for _ in range(500 if q else 6000):
        fs = [frame(rframe(r)) for _ in range(r.randrange(1, 7))]
        if r.random() < .2: fs.insert(r.randrange(len(fs) + 1), (r.choice([0, 5, 9, 255]), 0x53, 1, 0x50, []))
        cs.append(fprint(fs))
    k.run(cs)
    for c in cs:
        if 'text' in c.out: c.out['lines'] = telegrams(c.out.pop('text'))
    k.pure_done(cs)
    # traffic in hexadecimal
    cs = [hexdump([(j * 7 + n) & 255 for j in range(n)], label=['SEND', 'RECV', '', 'a (1) b'][n % 4]) for n in list(range(0, 130)) + [199, 255, 256, 261, 300, 999, 1000, 1001, 2048]]
    cs += [hexdump([v]) for v in range(256)] + [hexdump(None), hexdump([1], label=None), hexdump(None, label=None)]
    # every day of some years, and the ends of days
    for d in list(range(365 * 2 + 1)) + list(range(10957 - 400, 10957 + 800)) + [r.randrange(24855) for _ in range(200)]: cs.append(hexdump([1], now=d * 86400 + r.choice([0, 1, 59, 60, 3599, 3600, 86399, 43199, r.randrange(86400)])))
    cs.append(hexdump([255], now=2147483647))
    k.pure(cs)
    # the dumps of a session tell what was sent and received
    OPS = SIMPLE + [lambda r: select(sec(r)), lambda r: probe(sec(r)), lambda r: rr(addr(r), r.choice([0, 1, 2])), lambda r: readp(addr(r)), lambda r: reads(sec(r)), lambda r: recv(), lambda r: recvn(), lambda r: purge(), lambda r: drecv(),
                    lambda r: send(*frame(rframe(r))), lambda r: sendn(), lambda r: scan(15, '012345678901234F')]
    cs = [dumps(random_session(r, OPS, 4, cb=1)) for _ in range(900 if q else 12000)]
    for n in range(0, 253, 4 if q else 1):
        for tr in ('ser', 'tcp'): cs.append(dumps(session([req(5), recv(), send(4, 0x53, 5, 0x51, rb(r, max(1, n)))], tr=tr, rep=[cut(r, long_(8, 5, 0x72, rb(r, n)))], cb=1)))
    k.sessions(cs)
    # and those of the programs
    cs = []
    for tr, names in DUMPING.items():
        for name in names:
            for _ in range((40 if name not in ('scan', 'scan2') else 12) if q else 500):
                ppl = people(r, r.choice([1, 1, 2]), .1, r.choice([1, 2]) if name == 'readall' else 1); a = someone(r, ppl); kw = {}
                if name == 'set': kw = {'addr': a, 'new': r.choice(['9', '250', str(ppl[0][0])])}
                elif name in ('read', 'readall'): kw = {'addr': a}
                elif name == 'reset': kw = {'addr': r.choice([a, '5']), 'sub': r.choice([None, None, '7'])}
                elif name == 'raw': kw = {'addr': r.choice([a, '5']), 'raw': raw_text(r)}
                elif name == 'scan2': kw = {'addr': text_mask(r, ppl)}
                if r.random() < .5: kw.update(pop=ppl, cm=r.choice([0, 1, 2]))
                else: kw.update(rep=reactions(r, 260 if name == 'scan' else 40, .8))
                if tr == 'ser': kw['baud'] = r.choice([None, '300', '2400', '9600', '38400'])      # -d among all the other options
                if name == 'scan': kw['retries'] = r.choice([None, 0, 1])
                if name == 'readall': kw.update(mx=r.choice([None, 0, 1, 2, 16]), order=r.randrange(3))
                debug = int(r.random() < .85)
                c = tool(name, tr, debug=debug, w='' if r.random() < .9 else 'o' * r.randrange(5) + r.choice('fs'), dirty=r.choice([0, 1, 0xE5]), **kw)
                c.cmd += ' '; p, _, q_ = c.cmd.partition(' dirty='); c.cmd = (p + ' dumps=1 dirty=' + q_).strip(); c.i['cb'] = debug; cs.append(c)
    k.sessions(cs, 'TraceTools', shape=tool_shape)
    return k.finish(assumptions=['alignment and separators of the fields are not judged', 'the function shown for blocks that carry no value is not specified'])
def text_mask(r, ppl):
    return checks_tools.text_of_sec(ppl[0][1])[:14] + r.choice(['FF', 'ff']) if r.random() < .7 else '01234567890123FF'
