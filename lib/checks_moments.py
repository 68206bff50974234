"""C33: what was received carries the moment at which it was."""
from core import *
from sess import *
from checks_master import model_cases, answer, cut, telegram, damage, hdr, random_session, addr, sec, lossy, SECS, SIMPLE, reaction
from checks_data import xml_case, run_xml, member, rb, rec, HDR, START
import checks_tools

ENDS = [0, 1, 59, 60, 3599, 3600, 43199, 43200, 86399]
def when(r): return r.choice([r.randrange(1, 2**31), r.randrange(1, 4102444800), r.randrange(1, 253402300800), r.choice(range(24855)) * 86400 + r.choice(ENDS) or 1, START])
def echoed(r, f, answer_):
    """the telegram comes back before the answer"""
    return cut(r, f) + answer_
def c33(k):
    k.build(); r = k.rng; q = k.quick
    k.model('MomentModel')
    if not q: k.model('MomentModel', 'MomentModelDeep')
    # documents of telegrams received at any moments
    docs = []; v = lambda n=1: (8, 0x72, HDR + [1, 0x13, 9] * n)
    for d in list(range(0, 800)) + list(range(10957 - 70, 10957 + 70)) + [365 * y + y // 4 + o for y in range(30, 140, 5) for o in (57, 58, 59, 60, 363, 364, 365)]: docs.append(([v()], [d * 86400 + r.choice(ENDS) or 1]))
    for t in (1, 59, 60, 86399, 86400, 951782400, 951868800, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 4107542399, 4107542400, 253402300799): docs.append(([v()], [t]))
    for y in range(1970, 10000, 97 if q else 1): t = (__import__('datetime').date(y, r.choice([1, 2, 3, 12]), r.choice([1, 28])).toordinal() - 719163) * 86400 + r.choice(ENDS); docs.append(([v()], [max(1, t)]))
    for n in (1, 2, 3, 5, 16):                       # every telegram has its own, or none
        for _ in range(12 if q else 200):
            docs.append(([v(r.randrange(3)) for _ in range(n)], [when(r) if r.random() < .7 else 0 for _ in range(n)]))
            t = when(r); docs.append(([v(r.randrange(1, 3)) for _ in range(n)], [t + j for j in range(n)]))
    docs.append(([v()], [0])); docs.append(([v(3), v(2)], [0, 0])); docs.append(([(8, 0x72, HDR + [0x0F, 1, 2])], [77])); docs.append(([(8, 0x72, HDR + [0x1F])] * 2, [0, 77]))
    for _ in range(200 if q else 4000):
        ch = [member(r, 'vvvvefx') for _ in range(r.choice([1, 1, 2, 3]))]; docs.append((ch, [r.choice([0, when(r), when(r)]) for _ in ch]))
    run_xml(k, [xml_case(d, t) for d, t in docs])
    # telegrams received by every operation
    cs = []
    for s, n in (('rr', 700), ('read', 150), ('probe', 400)): cs += model_cases(k, 'MasterModel', 'MM_' + s, n if q else None)
    for _ in range(150 if q else 3000): cs.append(lossy(r))
    for tr in ('tcp', 'ser'):
        for e in (0, 1, 2):
            for _ in range(15 if q else 300):
                a = answer(r); ask = short(0x5B, 5)
                cs.append(session([req(5), recv(), recv()], tr=tr, echo=e, cb=0, rep=[echoed(r, ask, cut(r, a))], tag='echo'))
                cs.append(session([readp(5), readp(5)], tr=tr, echo=e, cb=0, rep=[echoed(r, ask, cut(r, answer(r))), cut(r, answer(r))], tag='echo'))
                cs.append(session([ping(9), recv(), req(9), recv(), recv(), ping(9), recv()], tr=tr, echo=e, cb=0, rep=[[B(ACK)], cut(r, a) + [B(ACK)], cut(r, telegram(r)) + cut(r, telegram(r))], tag='one after another'))
                n = r.choice([2, 3, 5]); h = hdr(r); tel = [rsp(5, h + [1, 3, j] + ([0x1F] if j < n - 1 else [])) for j in range(n)]
                cs.append(session([rr(5, 0)], tr=tr, echo=e, cb=0, rep=[echoed(r, short(0x7B if j % 2 == 0 else 0x5B, 5), cut(r, t)) for j, t in enumerate(tel)], tag='echo, several telegrams'))
                cs.append(session([rr(5, 0), recv()], tr=tr, echo=e, cb=0, rep=[cut(r, tel[0])] + [r.choice([[], cut(r, damage(r, t))]) if r.random() < .3 else cut(r, t) for t in tel[1:] for _ in (0, 1)], tag='several telegrams'))
        for n in (1, 2, 16, 60): cs.append(session([rr(5, 0)], tr=tr, cb=0, rep=[cut(r, rsp(5, hdr(r) + [1, 3, j & 255] + ([0x1F] if j < n - 1 else []))) for j in range(n)], tag='many telegrams'))
    OPS = [lambda r: recv(), lambda r: recv(), lambda r: req(5), lambda r: readp(addr(r)), lambda r: reads(sec(r)), lambda r: probe(sec(r)), lambda r: rr(r.randrange(251), r.choice([0, 1, 2])), lambda r: ping(5, 0), lambda r: drecv(), lambda r: purge()]
    for _ in range(700 if q else 10000): cs.append(random_session(r, OPS, 5))
    k.sessions(cs)
    # and shown by the programs
    cs = []
    for name in ('read', 'readall'):
        for tr in ('ser', 'tcp'):
            for _ in range(25 if q else 500):
                ppl = checks_tools.people(r, 1, 0, r.choice([1, 2, 3, 9]) if name == 'readall' else 1)
                cs.append(checks_tools.tool(name, tr, pop=ppl, addr=checks_tools.someone(r, ppl), dirty=r.choice([0, 1, 0xE5]), mx=r.choice([None, 1, 2, 0]) if name == 'readall' else None, tag='slaves'))
            for _ in range(25 if q else 500):
                init = [[]] * (0 if (name, tr) == ('read', 'tcp') else 2); n = r.choice([1, 2, 3]) if name == 'readall' else 1
                tel = [rsp(5, hdr(r) + [1, 3, j] + ([0x1F] if j < n - 1 else [])) for j in range(n)]
                cs.append(checks_tools.tool(name, tr, addr='5', rep=init + [x for t in tel for x in ([[]] if name == 'readall' and r.random() < .3 else []) + [cut(r, t)]], dirty=r.choice([0, 1, 0xE5]), tag='repeated'))
    k.sessions(cs, 'TraceTools', shape=checks_tools.shape)
    return k.finish(assumptions=['moments from 1970 to the end of 9999, to the second', 'a telegram is received when its last byte is read', 'programs and library run with a time zone that is never that of UTC'])
