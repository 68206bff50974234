"""C23, C24, C25, C27: the command line programs."""
import re
from core import *
from sess import *
from checks_master import cases_in, chars, items, telegram, damage, cut, answer, hdr, vpay, reaction, sec_of_text, SECS, BADSECS
from checks_data import lines_of

TOOL = {'scan': 'mbus_%s_scan', 'scan2': 'mbus_%s_scan_secondary', 'set': 'mbus_%s_set_address', 'read': 'mbus_%s_request_data', 'readall': 'mbus_%s_request_data_multi_reply',
        'select2': 'mbus_%s_select_secondary', 'baud': 'mbus_%s_switch_baudrate', 'reset': 'mbus_%s_application_reset', 'raw': 'mbus_%s_raw_send'}
LONG = {'ser': 'serial', 'tcp': 'tcp'}
HOST = 'gateway.test'
def tool(name, tr, w='', rep=(), pop=None, cm=0, baud=None, port='10001', open='', tcs='', debug=0, dirty=0, addr=None, new=None, rate=None, sub=None, raw=None, file=None, mx=None, retries=None, order=0, argv=None, echo=1, tag=''):
    """a run of a program; what is None is left out of the command line"""
    a = []
    opts = ([['-d']] if debug else []) + ([['-b', baud]] if baud is not None and tr == 'ser' else []) + ([['-r', str(retries)]] if retries is not None and name == 'scan' else []) + ([['-f', str(mx)]] if mx is not None else [])
    if name == 'readall' and order: opts = opts[order % max(1, len(opts)):] + opts[:order % max(1, len(opts))]
    for o in opts: a += o
    a += ['/dev/virtual'] if tr == 'ser' else [HOST, port]
    a += [str(x) for x in {'scan': [], 'scan2': [addr], 'set': [addr, new], 'read': [addr], 'readall': [addr], 'select2': [addr], 'baud': [addr, rate], 'reset': [addr, sub], 'raw': [addr]}[name] if x is not None]
    if file is not None: a.append('/nonexistent/file' if file == 'none' else '@FILE')
    if argv is not None: a = argv
    p = {'name': name, 'tr': tr, 'open': list(open), 'tcs': list(tcs), 'here': codes('/dev/virtual' if tr == 'ser' else HOST), 'words': [codes(x) for x in a], 'stdin': list(raw or []), 'file': [] if file in (None, 'none') else list(file)}
    assert all(x and ' ' not in x for x in a), a
    cmd = 'tool tool=%s tr=%s dirty=%d' % (TOOL[name] % LONG[tr], tr, dirty)
    if name == 'raw': cmd += ' stdin=' + bytes(raw or []).hex()
    if p['file']: cmd += ' file=' + bytes(p['file']).hex()
    w = ''.join(w); open = ''.join(open); tcs = ''.join(tcs)
    for k, v in (('w', w), ('open', open), ('tcs', tcs)):
        if v: cmd += ' %s=%s' % (k, v)
    if rep: cmd += ' rep=' + ';'.join(istr(x) for x in rep) + ';'
    i = {'prog': p, 'tr': tr, 'tty': 1, 'pre': [], 'w': list(w), 'echo': echo, 'dr': 3, 'cb': 0, 'fcb': 0}
    if pop is not None:
        cmd += ' pop=%s cm=%d' % (';'.join('%d:%s:%s' % (q, bytes(s).hex(), '|'.join(bytes(t).hex() for t in ts)) for q, s, ts in pop), cm)
        i['cm'] = cm; i['pop'] = [{'prim': q, 'sec': list(s), 'tel': [list(t) for t in ts], 'sel': False, 'fcb': -1, 'ix': 1} for q, s, ts in pop]
    return Case('tool', cmd + ''.join(' !' + x for x in a), i, tag)
RESULTS = (r'(?:Found a M-Bus device at address -?\d+|Collision at address -?\d+|Found a device on secondary address \S+ \[using address mask \S*\]|Set primary address of device to -?\d+'
           r'|Switched baud rate of device to -?\d+|Successful reset device(?: \(Subcode: -?\d+\))?|Recieved a reply from secondarily addressed device: Searched for \[[^]]*\] and found \[[^]]*\]\.)%0A')
def shape(c):
    evs = [e for e in c.out['ev'] if e['e'] in ('tx', 'txfail')]
    out = ''.join(l for l in re.findall(r'.*?%0A|.+$', c.out['out']) if not re.match(r'\w+: Dumping M-Bus frame', l))      # a dump of the answer nobody expected
    # among the messages of a program run with its debug option: what it says all the same
    doc = re.search(r'<\?xml.*?</MBusData>%0A', out); told = ''.join(m.group(0) for m in re.finditer(RESULTS, out))
    x = {'e': 'exit', 'rc': 0 if c.out['rc'] == 0 else 1, 'out': out, 'rate': -1, 'host': '', 'port': '', **lines_of(out), 'dbg': {'out': doc.group(0) if doc else told, **lines_of(doc.group(0) if doc else told)}}
    for e in c.out['ev']:
        if e['e'] == 'line' and e['ok']: x['rate'] = e['ispeed'] if e['ispeed'] == e['ospeed'] else -2
        if e['e'] == 'resolve': x['host'] = e['h']; x['port'] = e['p']
    return {'id': c.id, 'i': c.i, 'ev': evs + [x]}

def of_model(j, r):
    p = j['p']; t = {k: chars(p[k]) for k in ('addr', 'new', 'rate', 'retries') if k in p}
    if p['name'] == 'readall': t['mx'] = p['max']
    if p['name'] == 'reset' and p['sub']: t['sub'] = chars(p['sub'])
    if p['name'] == 'raw': t['raw'] = p['raw']
    return tool(p['name'], p['tr'], w=''.join(j['w']), rep=[items(q) for q in j['q']], baud=chars(p['baud']) if p['tr'] == 'ser' else None, dirty=r.choice([0, 1, 0xE5, 255]), tag='ToolModel', **t)
def model(k, scen, limit):
    js = cases_in(k.model('ToolModel', 'TM_' + scen)); js.sort(key=lambda j: json.dumps(j, sort_keys=True))
    if limit and len(js) > limit: js = k.rng.sample(js, limit)
    return js

BAUDS = ['300', '600', '1200', '2400', '4800', '9600', '19200', '38400']
NUMS = ['0', '1', '5', '007', '10', '250', '251', '252', '253', '254', '255', '256', '-1', '+3', '5x', 'x', '1000']
def setup_cases(r, name, kw, trs=('ser', 'tcp')):
    """connections that do not come about, line speeds and ports"""
    cs = []
    if 'ser' in trs:
        for b in BAUDS + ['0', '1', '-300', '2401', '9600x', 'x', '115200', '57600']: cs.append(tool(name, 'ser', baud=b, tag='speed', **kw()))
        for o in 'nc': cs.append(tool(name, 'ser', open=o, tag='open refused', **kw()))
        for t in ('x', 'ox'): cs.append(tool(name, 'ser', tcs=t, tag='line refused', **kw()))
        cs.append(tool(name, 'ser', baud=None, tag='default speed', **kw()))
    if 'tcp' in trs:
        for p in ('0', '1', '80', '010001', '65535', '65536', '-1', '100000', 'x', '7x'): cs.append(tool(name, 'tcp', port=p, tag='port', **kw()))
        for o in ('n', 'c', 'cc', 'kk', 'ko', 'ck', 'co'): cs.append(tool(name, 'tcp', open=o, tag='connection', **kw()))
    return cs
def tel(r, n): return [[1, 3, i] + [4, 0x13, r.randrange(256), 0, 0, 0] * r.randrange(2) + ([0x1F] if i < n - 1 else []) for i in range(n)]
def people(r, n, dup=.2, tels=1):
    out = []; used = []
    for _ in range(n):
        a = r.choice(used) if used and r.random() < dup else r.choice([0, 1, 2, 5, 7, 100, 249, 250] + [r.randrange(251)] * 4); used.append(a)
        out.append((a, sec_of_text(''.join(r.choice('0123456789') for _ in range(16))), tel(r, tels)))
    return out
def text_of_sec(s): return bytes(list(s[3::-1]) + list(s[4:])).hex().upper()
def mask_for(r, s):
    m = list(text_of_sec(s))
    for _ in range(r.choice([0, 0, 1, 4, 8])): m[r.randrange(16)] = r.choice('Ff')
    return ''.join(m)
def someone(r, ppl):
    """the address of one of them (or of none)"""
    if not ppl or r.random() < .1: return r.choice(NUMS + ['0765432111220106'])
    a, s, _ = r.choice(ppl)
    return str(a) if r.random() < .5 else mask_for(r, s)
def reactions(r, n, p=.75):
    return [r.choice([lambda: [B(ACK)], lambda: [B(ACK)], lambda: [], lambda: cut(r, answer(r))])() if r.random() < p else reaction(r, 'tcp') for _ in range(n)]
GOOD = {'scan': [], 'scan2': ['0123456789012345'], 'set': ['5', '6'], 'read': ['5'], 'readall': ['5'], 'select2': ['0123456789012345'], 'baud': ['5', '300'], 'reset': ['5'], 'raw': ['5']}
HAS = {'scan': 'dbr', 'scan2': 'db', 'set': 'db', 'read': 'db', 'readall': 'dbf', 'select2': 'b', 'baud': 'b', 'reset': 'd', 'raw': 'd'}
def usages(r, name, tr, n):
    """command lines with all options there are, with others, and with too few or too many words"""
    cs = []
    def line(ls):
        o = []
        for l in ls: o += ['-' + l] + ({'b': [r.choice(BAUDS)], 'r': [r.choice('01')], 'f': [r.choice(['1', '3'])]}.get(l, []))
        return o
    has = [l for l in HAS[name] if tr == 'ser' or l != 'b']
    if (name, tr) == ('scan2', 'tcp'): has = []
    sets = [[l for j, l in enumerate(has) if m >> j & 1] for m in range(1 << len(has))]
    place = ['/dev/virtual'] if tr == 'ser' else [HOST, '10001']
    def add(a): cs.append(tool(name, tr, argv=a, tag='usage', raw=[69, 53], rep=[[B(ACK)], [B(ACK)], [], [B(ACK)], [B(ACK)]] if name != 'scan' else [], dirty=r.choice([0, 1, 0xE5])))
    for s in sets:
        good = line(s) + place + GOOD[name]; add(good); add(good[:-1]); add(good + ['7']); add(good + ['7', '8']); add(line(s))
        for j, w in enumerate(good):                       # another letter, or none
            if w[0] == '-' and w[1].isalpha(): add(good[:j] + ['-' + r.choice('xyz')] + good[j+1:]); add(good[:j] + [r.choice(['-', 'd', '--', '-dd', '-B', '-D'])] + good[j+1:])
        for w in ('-x', '-v'): add([w] + good); add(line(s) + [w] + place + GOOD[name]); add([w, '2400'] + good); add(line(s) + [w, '2400'] + place + GOOD[name])
        if name == 'readall': add(line(s[::-1]) + place + GOOD[name])
    if len(cs) > n: cs = r.sample(cs, n)
    add([]); add(place); add(['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i'])
    return cs
def go(k, cs):
    k.sessions(cs, 'TraceTools', shape=shape)
def wfate(r, n): return '' if r.random() < .85 else 'o' * r.randrange(n) + r.choice('fs')

def c23(k):
    k.build(); r = k.rng
    js = model(k, 'scan', 30 if k.quick else 400)
    cs = []
    for j in js:                        # the model's two addresses, and then silence
        c = of_model(j, r); cs.append(c)
    for _ in range(40 if k.quick else 500):
        tr = r.choice(['ser', 'tcp'])
        cs.append(tool('scan', tr, pop=people(r, r.choice([0, 1, 2, 5, 12]), .3), cm=r.choice([0, 0, 1, 2, 3]), retries=r.choice([None, None, 0, 1]), baud=r.choice([None, '2400']), debug=int(r.random() < .15), w='' if r.random() < .8 else 'o' * r.randrange(260) + r.choice(['f', 's', 'fof']), dirty=r.choice([0, 1, 2, 4, 0xE5, 255]), tag='slaves'))
    for _ in range(50 if k.quick else 600):
        tr = r.choice(['ser', 'tcp'])
        rep = []
        for _ in range(r.choice([20, 251])): rep.append(r.choice([[], [], [B(ACK)], [B(ACK), B(ACK)], [B([r.randrange(256)])], cut(r, answer(r)), cut(r, answer(r)) + [B(ACK)], cut(r, telegram(r)) + cut(r, telegram(r)), [B(ACK), T, B(ACK)], [T], [E], [B(ACK), E], cut(r, damage(r, answer(r))), [B([0x10])], [B([0x68, 5])], reaction(r, 'tcp')]))
        cs.append(tool('scan', tr, rep=rep, retries=r.choice([None, 0, 1, 2, 9]) if len(rep) < 30 else None, w=wfate(r, 100), dirty=r.choice([0, 1, 2, 4, 0xE5, 255]), tag='any reactions'))
    for v in ('0', '3', '9', '10', '-1', 'x', '2x'): cs.append(tool('scan', r.choice(['ser', 'tcp']), retries=v, pop=people(r, 1), tag='retries'))
    sc = setup_cases(r, 'scan', lambda: {'pop': people(r, 2)}); cs += r.sample(sc, 24) if k.quick else sc
    for tr in ('ser', 'tcp'):
        cs += usages(r, 'scan', tr, 25 if k.quick else 999)
        for d in (0, 1):
            for b in (None, '300'):
                for t in (None, 0, 1): cs.append(tool('scan', tr, pop=people(r, 2), debug=d, baud=b, retries=t, tag='options'))
        for t in ('10', '-1'): cs.append(tool('scan', tr, pop=people(r, 2), retries=t, tag='retries'))
    for p in ('65536', '-1'): cs.append(tool('scan', 'tcp', pop=people(r, 2), port=p, tag='port'))
    go(k, cs)
    return k.finish(assumptions=['the exit status of a scan is not prescribed when the transport failed', 'acknowledgements sent at the same instant may be superposed into one'])

def c24(k):
    k.build(); r = k.rng
    cs = [of_model(j, r) for j in model(k, 'set', 900 if k.quick else None)]
    for _ in range(250 if k.quick else 4000):
        ppl = people(r, r.choice([1, 1, 2, 3, 6]), .15)
        new = r.choice([str(r.choice(ppl)[0]), str(r.randrange(251)), r.choice(NUMS)])
        cs.append(tool('set', 'ser', pop=ppl, cm=r.choice([0, 0, 1, 2, 3]), addr=someone(r, ppl), new=new, baud=r.choice([None, '2400', '300']), debug=int(r.random() < .15), w=wfate(r, 5), dirty=r.choice([0, 1, 0xE5]), tag='slaves'))
    for n in NUMS + [str(x) for x in range(2, 250, 13)]:
        cs.append(tool('set', 'ser', addr='5', new=n, rep=[[], [], [], [B(ACK)]], tag='new address')); cs.append(tool('set', 'ser', addr=n, new='9', rep=[[], [], [], [B(ACK)]], tag='address'))
    for b0 in range(0, 256, 1 if not k.quick else 3): cs.append(tool('set', 'ser', addr='5', new='9', rep=[[], [], [], [B([b0])]], tag='answer')); cs.append(tool('set', 'ser', addr='5', new='9', rep=[[], [], [B([b0])], [B(ACK)]], tag='taken'))
    for _ in range(300 if k.quick else 4000):
        cs.append(tool('set', 'ser', addr=r.choice(['5', '5', SECS[0], SECS[1], '250', '0']), new=r.choice(['9', '0', '250', '77']), rep=[[], r.choice([[], [B(ACK)]])] + (reactions(r, 3) if r.random() < .3 else [[]] + reactions(r, 2, .8)), w=wfate(r, 5), dirty=r.choice([0, 1, 0xE5]), tag='any reactions'))
    for _ in range(2): cs += setup_cases(r, 'set', lambda: {'addr': '5', 'new': '9', 'rep': [[], [], [], [B(ACK)]]}, ('ser',))
    cs += usages(r, 'set', 'ser', 999)
    go(k, cs)
    return k.finish()

def reading(r, n): return cut(r, rsp(r.randrange(251), hdr(r) + vpay(r, r.random() < n)))
def odd_data(r):
    return r.choice([lambda: answer(r), lambda: rsp(3, hdr(r) + vpay(r) + [0x0F] + [r.randrange(256) for _ in range(r.randrange(20))]), lambda: rsp(3, [r.randrange(256) for _ in range(r.randrange(60))]), lambda: long_(8, 3, 0x73, [r.randrange(256) for _ in range(r.choice([16, 16, 15, 17]))]),
                     lambda: long_(8, 3, 0x70, [r.randrange(12)]), lambda: long_(8, 3, 0x70), lambda: long_(8, 3, r.choice([0x71, 0x76, 0x77, 0x78]), hdr(r)), lambda: ACK, lambda: short(0x40, 3), lambda: rsp(3, hdr(r) + vpay(r), r.choice([0x48, 0x53, 0x73]))])()
def c25(k):
    k.build(); r = k.rng; cs = []
    for s, n in (('read', 500), ('readall', 700)): cs += [of_model(j, r) for j in model(k, s, n if k.quick else None)]
    for _ in range(250 if k.quick else 4000):
        name = r.choice(['read', 'readall', 'readall']); tr = r.choice(['ser', 'tcp'])
        ppl = people(r, r.choice([1, 1, 2, 3]), .1, r.choice([1, 2, 3, 5, 17]) if name == 'readall' else 1)
        cs.append(tool(name, tr, pop=ppl, cm=r.choice([0, 0, 1, 2]), addr=someone(r, ppl), baud=r.choice([None, '2400', '300']), debug=int(r.random() < .15), w=wfate(r, 6), dirty=r.choice([0, 1, 0xE5]),
                       order=r.randrange(3), mx=r.choice([None, None, 1, 2, 3, 0, -1, 16]) if name == 'readall' else None, tag='slaves'))
    for name in ('read', 'readall'):
        for a in NUMS + ['100', '77']:
            for tr in ('ser', 'tcp'): cs.append(tool(name, tr, addr=a, rep=[[]] * (0 if (name, tr) == ('read', 'tcp') else 2) + [reading(r, 0)], tag='address'))
        for _ in range(200 if k.quick else 4000):
            tr = r.choice(['ser', 'tcp']); init = [[]] * (0 if (name, tr) == ('read', 'tcp') else 2); sel = r.random() < .3; o = odd_data(r)
            cs.append(tool(name, tr, addr=r.choice(SECS[:2]) if sel else '3', rep=init + ([[B(ACK)]] if sel else []) + [cut(r, o)] + reactions(r, 3), debug=int(r.random() < .1), dirty=r.choice([0, 1, 0xE5]), tag='any data'))
        for _ in range(150 if k.quick else 3000):
            tr = r.choice(['ser', 'tcp'])
            cs.append(tool(name, tr, addr=r.choice(['5', SECS[0], SECS[1], '250', '253']), rep=([[]] * 2 if r.random() < .8 else []) + reactions(r, 7, .6), w=wfate(r, 6), dirty=r.choice([0, 1, 0xE5]), tag='any reactions'))
        for tr in ('ser', 'tcp'): cs += setup_cases(r, name, lambda: {'addr': '5', 'rep': ([] if (name, tr) == ('read', 'tcp') else [[], []]) + [reading(r, 0)]}, (tr,))
        for m in BADSECS:
            if m and ' ' not in m and not m[:12].isdigit(): cs.append(tool(name, 'tcp', addr=m, rep=[[], [], reading(r, 0)], tag='no address'))
    for f in ('ack', 'more'):
        for n in range(18):
            cs.append(tool('readall', r.choice(['ser', 'tcp']), addr='5', rep=[[], []] + [cut(r, rsp(5, hdr(r) + [1, 3, i, 0x1F])) for i in range(n)] + [cut(r, rsp(5, hdr(r) + [1, 3, 7]))], mx=None if f == 'ack' else r.choice([n, n + 1, n - 1, 0]), tag='many telegrams'))
    for tr in ('ser', 'tcp'):
        cs += usages(r, 'read', tr, 999) + usages(r, 'readall', tr, 999)
    go(k, cs)
    return k.finish()

def c27(k):
    k.build(); r = k.rng; cs = []
    cs += [of_model(j, r) for j in model(k, 'command', 500 if k.quick else None)]
    for name, tr in (('select2', 'ser'), ('select2', 'tcp'), ('baud', 'ser'), ('reset', 'tcp'), ('raw', 'tcp'), ('scan2', 'ser'), ('scan2', 'tcp')):
        def args():
            return {'select2': lambda: {'addr': r.choice(SECS)}, 'baud': lambda: {'addr': r.choice(NUMS), 'rate': r.choice(BAUDS + ['0', '2401', 'x'])}, 'reset': lambda: {'addr': r.choice(NUMS + SECS), 'sub': r.choice([None, None] + NUMS)},
                    'raw': lambda: {'addr': r.choice(NUMS + SECS), 'raw': raw_text(r), 'file': r.choice([None, None, None, 'none', raw_text(r)])}, 'scan2': lambda: {'addr': r.choice([None, '012345678901234F', '01234567890123FF', '0123456789012345'])}}[name]()
        for _ in range(120 if k.quick else 2500):
            a = args(); n = 60 if name == 'scan2' else 4
            cs.append(tool(name, tr, rep=reactions(r, n, .8) if name != 'scan2' else ([[], []] if r.random() < .5 else reactions(r, 2, .8)) + [reaction(r, 'tcp') if r.random() < .3 else [] for _ in range(n)], w=wfate(r, n), debug=int(r.random() < .1 and (name in ('reset', 'raw') or (name == 'scan2' and tr == 'ser'))), baud=r.choice([None, '2400', '300']) if tr == 'ser' and not (name == 'scan2' and a['addr'] is None and False) else None, dirty=r.choice([0, 1, 0xE5]), tag='any reactions', **a))
        for _ in range(40 if k.quick else 800):
            a = args(); ppl = people(r, r.choice([1, 2, 3]), .1)
            if name == 'select2': a['addr'] = mask_for(r, r.choice(ppl)[1])
            if name in ('baud', 'reset', 'raw'): a['addr'] = someone(r, ppl)
            if name == 'baud' and len(a['addr']) > 5: a['addr'] = '5'
            if name == 'scan2':
                base = ''.join(r.choice('0123456789') for _ in range(14)); ppl = [(j + 1, sec_of_text(x), tel(r, 1)) for j, x in enumerate({base + r.choice('01') + r.choice('0123456789') for _ in range(r.randrange(1, 4))})]; a['addr'] = r.choice([base + 'FF', base + 'ff', base[:13] + 'FFF', 'F' * 16])
            cs.append(tool(name, tr, pop=ppl, cm=r.choice([0, 1, 2]), dirty=r.choice([0, 1, 0xE5]), tag='slaves', **a))
        for _ in range(2):
            cs += setup_cases(r, name, lambda: {**args(), 'rep': [[], []] if name == 'scan2' else [[B(ACK)], reading(r, 0)]}, (tr,))
        cs += usages(r, name, tr, 999)
        if name in ('select2', 'scan2'):
            for m in BADSECS:
                if m and ' ' not in m: cs.append(tool(name, tr, addr=m, rep=[[B(ACK)], reading(r, 0)], tag='no address'))
    go(k, cs)
    return k.finish()
def raw_text(r):
    b = telegram(r)[:255] if r.random() < .8 else [r.randrange(256) for _ in range(r.randrange(12))]
    if b and r.random() < .2: b = damage(r, b)
    s = r.choice(['', ' ', '\n', ' \t']).join(r.choice(['%02x', '%02X'])  % x for x in b)
    if r.random() < .15: s += r.choice(['0', 'zz', '\n', ' 16', '\n\n68'])
    return [ord(c) for c in s]
