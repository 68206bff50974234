"""C29: what happens when memory is refused."""
from core import *
from sess import *
from checks_master import model_cases, random_session, reaction, answer, telegram, cut, items, hdr, vpay, addr, sec, SECS, SIMPLE, pop_of, sec_of_text, scan_case
from checks_data import vdata, xml_case, getaddr_case, lines_of, payload, rec, random_record, member, HDR, rb
import checks_handle, checks_tools
from checks_tools import tool, people, someone, mask_for, tel, reading, odd_data

def copy(c, how):
    op, rest = c.cmd.split(' ', 1)
    return Case(c.op, '%s %s %s' % (op, how, rest), dict(c.i), c.tag)
def requests(c):
    """how often memory was asked for"""
    if 'na' in c.out: return c.out['na']
    return next((e['n'] for e in c.out.get('ev', []) if e['e'] == 'na'), 0)
def places(c):
    """the first and the last request of every place in the code that asks for memory"""
    return set(c.out['pl'] if 'pl' in c.out else next((e['pl'] for e in c.out.get('ev', []) if e['e'] == 'na'), []))
def refuse(k, base, most):
    """every request refused in turn, alone and with all that follow"""
    probe = [copy(c, 'oom=-1') for c in base]; k.run(probe)
    out = []
    for c, p in zip(base, probe):
        if 'crash' in p.out: continue
        n = requests(p); ks = list(range(1, n + 1))
        if len(ks) > most: ks = sorted(set(ks[:most // 3] + ks[-(most // 3):] + k.rng.sample(ks, most // 3)) | places(p))
        for j in ks:
            out.append(copy(c, 'oom=%d' % j))
            if n > 1: out.append(copy(c, 'oomall=%d' % j))
    return out
def strip(evs):
    """the events without the refusals, and where these were"""
    kept, where = [], []
    for e in evs:
        if e['e'] == 'oom': where.append(len(kept) + 1)
        elif e['e'] != 'na': kept.append(e)
    return kept, sorted(set(where))
def shape(c):
    evs, where = strip(c.out['ev'])
    return {'id': c.id, 'i': {**c.i, 'oom': where}, 'ev': events(evs)}
def tool_shape(c):
    evs, where = strip([e for e in c.out['ev'] if e['e'] in ('tx', 'txfail', 'oom')])
    times = sum(e['e'] == 'oom' for e in c.out['ev'])
    kept = Case(c.op, c.cmd, {**c.i, 'oom': where, 'refusals': times}, c.tag); kept.id = c.id; kept.out = {**c.out, 'ev': strip(c.out['ev'])[0]}
    return checks_tools.shape(kept)
def life_shape(c):
    flags, evs = [], []
    for e in c.out['ev']:
        if e['e'] == 'call': flags.append(0)
        if e['e'] == 'oom': flags[-1] = 1
        else: evs.append(e)
    kept = Case(c.op, c.cmd, c.i, c.tag); kept.id = c.id; kept.out = {**c.out, 'ev': evs}
    s = checks_handle.shape(kept)
    for x, f in zip(s['calls'], flags): x['oom'] = f
    return s
def pure(k, base, most):
    cs = refuse(k, base, most); k.run(cs)
    for c in cs:
        if 'crash' in c.out: continue
        c.i['oom'] = 1          # (the request that is refused is reached: it was when nothing was refused)
        c.out.pop('na', None)
        for f in ('chain', 'raw', 'norm'):
            if c.op == 'xml' and f in c.out: c.out[f] = lines_of(c.out[f])
    k.pure_done(cs)

def lives(r, n):
    tr = r.choice(['tcp', 'ser']); ops = [('new',)]; gone = False
    for _ in range(n):
        if gone: ops.append(('new',)); gone = False; continue
        j = r.randrange(6)
        if j <= 1: ops.append(('connect',))
        elif j == 2: ops.append(('disconnect',))
        elif j == 3: ops.append(('free',)); gone = True
        elif j == 4: ops.append(('opt', r.choice([0, 1, 2]), r.randrange(-1, 4)))
        else: ops.append(('recv',))
    return checks_handle.life(ops, tr, ''.join(r.choice('ooookcx') if tr == 'tcp' else r.choice('ooox') for _ in range(8)), ''.join(r.choice('ooof') for _ in range(8)) if tr == 'ser' else '', tag='life')

OPS = [lambda r: ping(5, r.randrange(2)), lambda r: req(5), lambda r: ud(5, [1, 2, 3]), lambda r: areset(5, 7), lambda r: baud(5, 2400), lambda r: setaddr(5, 7), lambda r: selframe(SECS[0]),
       lambda r: select(sec(r)), lambda r: probe(sec(r)), lambda r: probe(SECS[0]), lambda r: rr(5, r.choice([0, 0, 2])), lambda r: rr(5, 0), lambda r: readp(5), lambda r: reads(SECS[0]), lambda r: recv(), lambda r: scan(15, '012345678901234F'), lambda r: scan(14, '01234567890123FF')]
def good_session(r):
    """things go well, apart from memory"""
    tr = r.choice(['tcp', 'ser']); n = r.choice([1, 2, 4]); tels = [cut(r, rsp(5, hdr(r) + vpay(r, j < n - 1))) for j in range(n)]; j = r.randrange(6)
    if j == 0: ops, rep = [rr(5, 0), readp(5)], tels + [cut(r, answer(r))]
    elif j == 1: ops, rep = [probe(SECS[0]), reads(SECS[0])], [[B(ACK)], cut(r, answer(r)), [B(ACK)], cut(r, answer(r))]
    elif j == 2: ops, rep = [reads(SECS[0]), rr(253, 2)], [[B(ACK)], cut(r, answer(r))] + tels
    elif j == 3: ops, rep = [r.choice(SIMPLE)(r), recv(), r.choice(SIMPLE)(r), recv()], [[B(ACK)], [B(ACK)]]
    elif j == 4: ops, rep = [scan(15, '012345678901234F'), recv()], [r.choice([[], [B(ACK)], cut(r, answer(r))]) for _ in range(30)]
    else: ops, rep = [select(SECS[0]), req(253), recv()], [[B(ACK)], cut(r, answer(r))]
    return session(ops, tr=tr, rep=rep, cb=r.choice([0, 1]), fcb=r.choice([0, 1, 1]), sr=r.choice([0, 1]), dr=r.choice([0, 1, 3]), tag='all goes well')
def programs(r):
    ppl = people(r, r.choice([1, 2]), .1, r.choice([1, 3])); tr = r.choice(['ser', 'tcp']); a, s, _ = ppl[0]; me = r.choice([str(a), mask_for(r, s)])
    kw = {'pop': ppl, 'cm': r.choice([0, 2]), 'dirty': r.choice([0, 1, 0xE5]), 'tag': 'program'}
    base = text_of(s)
    return [tool('read', tr, addr=me, **kw), tool('readall', tr, addr=me, **kw), tool('set', 'ser', addr=me, new=str(r.randrange(251)), **kw), tool('select2', tr, addr=mask_for(r, s), **kw),
            tool('baud', 'ser', addr=str(a), rate='2400', **kw), tool('reset', 'tcp', addr=me, sub=r.choice([None, '7']), **kw), tool('raw', 'tcp', addr=str(a), raw=[ord(c) for c in '105b%02x%02x16' % (a, (0x5B + a) & 255)], **kw),
            tool('scan2', tr, addr=r.choice([base[:15] + 'F', base[:14] + 'FF']), **kw),
            tool('read', tr, addr='3', rep=([] if tr == 'tcp' else [[], []]) + [cut(r, odd_data(r))], tag='any data'), tool('readall', tr, addr='3', rep=[[], []] + [cut(r, odd_data(r))], tag='any data')]
def text_of(s): return checks_tools.text_of_sec(s)

def c29(k):
    k.build(); r = k.rng
    for cfg in ('select', 'probe', 'read', 'rr'): k.model('ScarceModel', 'SM_' + cfg)
    for cfg in ('set', 'read', 'readall', 'command'): k.model('ScarceTools', 'ST_' + cfg)
    # the data of replies
    base = [vdata(HDR + random_record(r, 230), 'all') for _ in range(30 if k.quick else 600)]
    for dif in range(16): base.append(vdata(HDR + rec(dif, r.choice([0x13, 0x6D, 0x6C]), [1, 2, 3, 4, 5, 6, 7, 8][:{13: 0}.get(dif, [0, 1, 2, 3, 4, 4, 6, 8, 0, 1, 2, 3, 4, 0, 6, 8][dif])] + ([2, 65, 66] if dif == 13 else []), ), 'all'))
    for vif in list(range(128)): base.append(vdata(HDR + rec(1, vif, [9], [], [r.randrange(128)] if vif in (0x7B, 0x7D) else [], [65] * 3 if vif == 0x7C else None), 'all'))
    for d in ([0x0F, 1, 2], [0x1F, 1], [0x0D, 0x13, 0xC3, 1, 2, 3], [4, 0x6D, 0, 0, 0x41, 0x31], [2, 0x6C, 1, 1], [6, 0x6D] + [1] * 6, [1, 0xFD, 0x17, 0], [0x0D, 0x78, 0]): base.append(vdata(HDR + d, 'all'))
    for t in range(0, 64): base.append(vdata(rb(r, 5) + [r.choice([0, 0x80])] + [t, (t * 5) % 64] + [1] * 8, ci=0x73, norm=1))
    base += [vdata(payload(r), 'all') for _ in range(20 if k.quick else 400)] + [vdata([1], ci=0x70), vdata(HDR + [1, 0x13, 9, 4, 0x13, 1]), vdata(HDR[:5])]
    base += [getaddr_case(HDR + r.choice([[], [1, 0x13, 9], random_record(r, 100)])) for _ in range(20)] + [getaddr_case(HDR, 0x73), getaddr_case(HDR[:5])]
    docs = [[member(r, 'v')] for _ in range(25 if k.quick else 400)] + [[member(r, 'v') for _ in range(n)] for n in (2, 3, 5)] + [[(8, 0x72, HDR + [1, 0x13, 9] * 80)], [(8, 0x72, HDR + [0x0D, 0x7C, 1, 0x26, 1, 0x22] * 38)] * 4, [member(r, 'f')], [member(r, 'e')], [(8, 0x70, [])]]
    docs += [[member(r, 'v'), member(r, x)] for x in 'fxeb'] + [[member(r, x)] for x in 'xb']
    base += [xml_case(d) for d in docs]
    pure(k, base, 30 if k.quick else 150)
    # calls
    cs = []
    for cfg, n in (('MM_select', 30), ('MM_probe', 60), ('MM_read', 40), ('MM_rr', 80)): cs += model_cases(k, 'MasterModel', cfg, n if k.quick else 20 * n)
    cs += [good_session(r) for _ in range(80 if k.quick else 1500)] + [random_session(r, OPS, 3, cb=r.choice([0, 1])) for _ in range(120 if k.quick else 2500)]
    for n in (1, 2, 4, 16): cs.append(session([rr(5, 0), rr(5, 0)], rep=[cut(r, rsp(5, hdr(r) + [1, 3, j] * 3 + ([0x1F] if j < n - 1 else []))) for j in range(n)] * 2, cb=0, tag='many telegrams'))
    k.sessions(refuse(k, cs, 24 if k.quick else 90), 'TraceMaster', shape=shape)
    cs = []
    for _ in range(10 if k.quick else 200):
        b = ''.join(r.choice('0123456789') for _ in range(16)); secs = sorted({b[:14] + r.choice('01') + r.choice('0123456789') for _ in range(r.randrange(1, 4))})
        cs.append(scan_case(b[:14] + 'FF', 14, [(n + 1, sec_of_text(d)) for n, d in enumerate(secs)], r.choice([0, 1, 2]), sr=r.choice([0, 1]), fcb=r.choice([0, 1, 1]), tr=r.choice(['tcp', 'ser']), tag='scan'))
    k.sessions(refuse(k, cs, 30 if k.quick else 120), 'TraceScan', shape=shape)
    k.sessions(refuse(k, [lives(r, r.randrange(2, 9)) for _ in range(60 if k.quick else 1500)], 20), 'TraceHandle', shape=life_shape)
    # programs
    cs = [c for _ in range(3 if k.quick else 40) for c in programs(r)]
    cs += [tool('scan', tr, pop=people(r, 3), retries=r.choice([None, 1]), tag='program') for tr in ('ser', 'tcp')]
    k.sessions(refuse(k, cs, 18 if k.quick else 60), 'TraceTools', shape=tool_shape)
    return k.finish(assumptions=['memory is refused where the library asks for it itself; what the C library needs for its own (name resolution, output) is not refused'])
