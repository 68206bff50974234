"""C30: several handles in one process."""
from core import *
from sess import *
from checks_master import random_session, cases_in, items, SIMPLE, addr, sec, SECS, answer, cut, hdr, vpay, telegram
import checks_handle
from checks_handle import life, random_life, op_of, SEC

def split(c):
    """parameters and calls of a session"""
    toks = c.cmd.split(' ')[1:]
    return [t for t in toks if t and t[0] != '!'], [t for t in toks if t and t[0] == '!']
def merge(parts, order, tag):
    """the calls of several cases, interleaved: `order` names the case whose next call it is"""
    n = len(parts); cmd = ['sess', 'n=%d' % n]; calls = []
    for k, c in enumerate(parts):
        ps, cs = split(c); calls.append(cs)
        for p in ps:
            if p.startswith('bare=') or p.startswith('fd0='): cmd += [p] if k == 0 else []
            else: cmd.append('%d.%s' % (k, p))
    # (what is left to call is called in the end)
    order = list(order); order += [k for k in range(n) for _ in range(len(calls[k]) - order.count(k))]
    at = [0] * n; last = None
    for k in order:
        if k != last: cmd.append('!@%d' % k); last = k
        cmd.append(calls[k][at[k]]); at[k] += 1
    return Case('sess', ' '.join(cmd), {'parts': [c.i for c in parts], 'order': order}, tag)
def shuffle(r, parts):
    o = [k for k, c in enumerate(parts) for _ in split(c)[1]]; r.shuffle(o); return o
def project(cs):
    """every handle's part of a recorded history, as a case of its own"""
    out = []
    for c in cs:
        if 'crash' in c.out: continue
        n = len(c.i['parts']); ev = c.out['ev']
        living = any(e['e'] == 'end' and e['live'] != 0 for e in ev) and any(p_alive(p) for p in c.i['parts'])
        for k in range(n):
            mine, of, scr, common = [], None, [], []
            # a timeout set by anyone is set for all
            nth = [0] * n
            order = iter(c.i['order'])
            for e in ev:
                e = dict(e); h = e.pop('ln')
                if e['e'] == 'call':
                    of = next(order); x = None
                    if 'script' in c.i['parts'][of]: x = c.i['parts'][of]['script'][nth[of]]
                    nth[of] += 1; take = of == k or (x or {}).get('op') == 'tmo'
                    if take: scr.append(x)
                if e['e'] == 'end':
                    if h == k: mine.append({**e, 'live': 0 if living else e['live']})
                    continue
                # what happens to a line while another handle is called is nobody's doing: it is left in the history and refuses it
                if h == k or (of is not None and h == of and take): mine.append(e)
            p = Case('sess', c.cmd, {**c.i['parts'][k], 'script': scr}, '%s, handle %d' % (c.tag, k)); p.id = 100 * c.id + k; p.out = {'id': p.id, 'ev': mine}
            out.append(p)
    return out
def p_alive(i):
    a = False
    for x in i['script']:
        if x['op'] == 'new': a = True
        elif x['op'] == 'free': a = False
    return a
def judge(k, cs, module, shape=None):
    k.run(cs)
    parts = project(cs); k.sessions_done(parts, module, shape=shape)

OPS = SIMPLE + [lambda r: select(sec(r)), lambda r: probe(sec(r)), lambda r: rr(addr(r), r.choice([0, 0, 1, 2])), lambda r: readp(addr(r)), lambda r: reads(sec(r)), lambda r: recv(), lambda r: recv(), lambda r: recvn(), lambda r: purge(), lambda r: drecv(),
                lambda r: scan(15, '012345678901234F')]
def readout(r):
    n = r.choice([1, 2, 3, 4]); tels = [cut(r, rsp(5, hdr(r) + vpay(r, j < n - 1), r.choice([8, 0x18]))) for j in range(n)]; a = r.randrange(251); m = r.choice(SECS[:3])
    ops, rep = r.choice([([rr(a, 0), readp(a)], tels + [cut(r, answer(r))]), ([probe(m), reads(m)], [[B(ACK)], cut(r, answer(r)), [B(ACK)], cut(r, answer(r))]), ([reads(m), rr(253, 0)], [[B(ACK)], cut(r, answer(r))] + tels),
                         ([req(a), recv(), req(a), recv(), ping(a), recv()], [cut(r, answer(r)), cut(r, answer(r)), [B(ACK)]]), ([select(m), rr(253, n)], [[B(ACK)]] + tels),
                         # a telegram in two halves, with calls of the others between
                         ([drecv(), drecv(), recv()], [])])
    return session(ops, tr=r.choice(['tcp', 'ser']), rep=rep, pre=[] if rep else cut(r, telegram(r) + telegram(r), 'T'), echo=r.choice([0, 1, 1, 2]), sr=r.choice([0, 1, 2]), dr=r.choice([0, 1, 3]), cb=r.choice([0, 1]), fcb=r.choice([0, 1]), tag='readout')
def c30(k):
    k.build(); r = k.rng
    # lives of handles
    js = {json.dumps(j, sort_keys=True): j for j in cases_in(k.model('ManyModel'))}; js = [js[x] for x in sorted(js)]
    if not k.quick: k.model('ManyModel', 'ManyModelDeep', timeout=3000)
    k.model('ManyModel', 'ManyModelThree')
    if k.quick: js = r.sample(js, min(len(js), 3000))
    cs = []
    for j in js:
        n = len(j['tr']); parts = []
        for h in range(n):
            own = [('new',), ('connect',)] + [op_of({**x['c'], 'tr': j['tr'][h]}) for x in j['s'] if x['k'] == h + 1]
            parts.append(bare(own, j['tr'][h], ''.join(j['o'][h]), ''.join(j['t'][h])))
        cs.append(merge(parts, [h for h in range(n) for _ in (0, 1)] + [x['k'] - 1 for x in j['s']], 'ManyModel'))
    for _ in range(700 if k.quick else 12000):
        parts = [plain_life(r, r.randrange(2, 9)) for _ in range(r.choice([2, 2, 3]))]
        cs.append(merge(parts, shuffle(r, parts), 'lives'))
    judge(k, cs, 'TraceHandle', life_shape)
    # calls on the bus
    cs = []
    for _ in range(900 if k.quick else 15000):
        parts = [r.choice([lambda: random_session(r, OPS, 4, cb=r.choice([0, 1])), lambda: readout(r), lambda: readout(r)])() for _ in range(r.choice([2, 2, 2, 3]))]
        cs.append(merge(parts, shuffle(r, parts), 'calls'))
    judge(k, cs, 'TraceMaster')
    return k.finish(assumptions=['calls are not concurrent: a call returns before the next one begins', 'the timeout of TCP connections belongs to the process, as the interface has it'])
def life_shape(c):
    ev = c.out['ev']          # something happened on the line before the handle was ever called
    if ev and ev[0]['e'] not in ('call', 'end'): c.out = {**c.out, 'ev': [{'e': 'call', 'op': '?'}, {'e': 'ret', 'v': 0}] + ev}
    return checks_handle.shape(c)
def bare(ops, tr, o='', t='', tag=''):
    c = life(ops, tr, o, t, tag=tag); c.cmd = ' '.join(x for x in c.cmd.split(' ') if not x.startswith('fd0=')); return c
def plain_life(r, n):
    """a life in which nobody connects twice"""
    c = random_life(r, n); ps, cs = split(c); c.cmd = ' '.join(['sess'] + [p for p in ps if not p.startswith('fd0=')] + cs); return c
