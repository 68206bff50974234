"""C20, C21: the life of a connection handle and the settings of the serial line."""
import zlib
from core import *
from sess import untext, FAILONLY
from checks_master import cases_in, chars, telegram, damage, cut, items
from sess import istr, ijs, B, T, E, short, long_, ACK

SEC = '12345678AABB0102'
def i32(v): return v if -2**31 <= v < 2**31 else 1000000 if v > 0 else -1000000
PLACE = {'ser': '/dev/virtual', 'tcp': 'gateway.test'}
def shown(s):
    """a name as the driver shows it"""
    return ''.join(c if ' ' <= c <= '~' and c not in '"\\%' else '%%%02X' % ord(c) for c in s)
def life(ops, tr, o='', t='', pre=(), tag=''):
    """ops: (name, arguments...)"""
    cmd = 'sess tr=%s bare=1' % tr; script = []
    if o: cmd += ' open=' + o
    if t: cmd += ' tcs=' + t
    if pre: cmd += ' pre=' + istr(pre)
    if any(x[0] == 'tmo' and x[1] >= 0 for x in ops): ops = list(ops) + ([] if any(x[0] == 'free' for x in ops[-1:]) or True else []) + [('tmo', 4000)]
    for x in ops:
        n, a = x[0], x[1:]
        cmd += ' !' + ':'.join([n] + ([a[0].encode('latin-1').hex(), str(a[1])] if n == 'new' and a else [str(v) for v in a]) + (['0'] if n == 'ping' else []))
        script.append({'op': n, **({'tr': tr, 'place': shown(a[0] if a else PLACE[tr]), 'port': a[1] if a else 10001} if n == 'new' else {'o': a[0], 'n': i32(a[1])} if n == 'opt' else {'ms': i32(a[0])} if n == 'tmo' else {'rate': i32(a[0])} if n == 'setbaud' else
                       {'m': [ord(c) for c in a[0]]} if n == 'probe' else {'addr': a[0]} if n in ('rr', 'ping') else {})})
    fd0 = (500, 0, 1, 2, 3, 500)[zlib.crc32(cmd.encode()) % 6]      # descriptors of any number, those below 3 too
    if fd0 != 500: cmd = cmd.replace(' bare=1', ' bare=1 fd0=%d' % fd0)
    return Case('sess', cmd, {'pre': ijs(pre), 'script': script}, tag)
def shape(c):
    calls, cur, end = [], None, {}
    for e in c.out['ev']:
        if e['e'] == 'call': cur = {'evs': [], 'v': None, 'f': {'t': -1}, 'op': e['op'], 'oom': 0}; calls.append(cur)
        elif e['e'] == 'ret': cur['v'] = -1 if cur['op'] in FAILONLY and e['v'] != 0 else e['v']; cur['f'] = e.get('f', {'t': -1})
        elif e['e'] == 'end': end = e
        elif e['e'] in ('tx', 'txfail', 'open', 'close', 'openfail', 'connfail', 'resolve', 'freeaddr', 'tmo', 'line', 'badclose', 'dev', 'to', 'badsocket', 'badconnect'): cur['evs'].append(e)
    return {'id': c.id, 'i': c.i, 'calls': calls, 'end': {'live': end.get('live', -1), 'fds': end.get('fds', -1)}}
def op_of(x):
    o = x['op']
    return {'new': ('new',) if (x.get('place'), x.get('port')) in ((PLACE[x.get('tr', 'tcp')], 10001), ('gateway.test', 10001), ('', 0)) else ('new', x.get('place'), x.get('port')), 'opt': ('opt', x.get('o'), x.get('n')), 'tmo': ('tmo', x.get('ms')), 'setbaud': ('setbaud', x.get('rate')), 'ping': ('ping', x.get('addr')), 'rr': ('rr', x.get('addr'), 0), 'probe': ('probe', ''.join(map(chr, x.get('m', []))))}.get(o, (o,))
def model_lives(k, cfg, limit=None):
    js = {json.dumps([j['s'], j['o'], j['t']]): j for j in cases_in(k.model('HandleModel', cfg))}
    js = [js[x] for x in sorted(js)]
    if limit and len(js) > limit: js = k.rng.sample(js, limit)
    cs = []
    for j in js:
        tr = next((x['tr'] for x in j['s'] if x['op'] == 'new'), 'tcp')
        if any(x['op'] == 'new' and x['tr'] != tr for x in j['s']): continue
        cs.append(life([op_of(x) for x in j['s']], tr, ''.join(j['o']), ''.join(j['t']), tag=cfg))
    return cs

VALUES = list(range(-3, 14)) + [-1, 255, 256, 257, 65536, 65537, 2**31 - 1, -2**31, 2**32, 2**32 + 1, 2**32 + 5, -2**32 + 1, -2**63, 2**63 - 1]
def random_life(r, n):
    tr = r.choice(['tcp', 'ser']); ops = [('new',)]
    if r.random() < .1: ops = [('null',), ('new',)]
    gone = False
    for _ in range(n):
        k = r.randrange(14)
        if gone: ops.append(('new',)); gone = False; continue
        if k <= 2: ops.append(('connect',))
        elif k <= 4: ops.append(('disconnect',))
        elif k == 5: ops.append(('free',)); gone = True
        elif k <= 7: ops.append(('opt', r.choice([0, 1, 2, 0, 1, 2, 3, 99]), r.choice(VALUES) if r.random() < .3 else r.randrange(-1, 11)))
        elif k == 8: ops.append(('setbaud', r.choice(RATES + [115200, 0, -300])) if tr == 'ser' else ('tmo', r.choice([0, 1, 250, 999, 1000, 1500, 60000, 3600000, -1, -1000])))
        elif k == 9: ops.append(('ping', r.randrange(251)))
        elif k == 10: ops.append(('probe', SEC))
        elif k == 11: ops.append(('rr', r.randrange(251), 0))
        elif k == 12: ops.append(('recv',))
        else: ops.append(('null',))
    return life(ops, tr, ''.join(r.choice('oooonkcx') if tr == 'tcp' else r.choice('oox') for _ in range(12)), ''.join(r.choice('ooof') for _ in range(12)) if tr == 'ser' else '', tag='random')
RATES = [300, 600, 1200, 2400, 4800, 9600, 19200, 38400]

def c20(k):
    k.build(); r = k.rng
    cs = model_lives(k, 'HandleModel', 4000 if k.quick else 40000)
    cs += model_lives(k, 'HandleModelTwice', 1500 if k.quick else None)
    if not k.quick: k.model('HandleModel', 'HandleModelDeep')
    for o in (0, 1, 2, 3, 4, 99, -1, 2147483647):          # every value, and what it changes
        for v in VALUES:
            for tr in ('tcp', 'ser'):
                cs.append(life([('new',), ('opt', o, v), ('connect',), ('probe', SEC), ('rr', 7, 0)], tr, tag='option'))
                cs.append(life([('new',), ('connect',), ('opt', 0, 2), ('opt', 1, 3), ('opt', 2, 2), ('opt', o, v), ('probe', SEC), ('rr', 7, 0), ('disconnect',), ('free',)], tr, tag='option'))
                cs.append(life([('new',), ('connect',), ('opt', o, v), ('recv',), ('recv',), ('recv',), ('disconnect',)], tr, pre=[B(short(0x40, 3)), B(ACK), B(short(0x5B, 3)), B(long_(8, 3, 0x70)), B(short(0x40, 4))], tag='option'))
    for v in range(3):                                        # the echo option of one handle and the next
        for w in range(3):
            pre = [B(short(0x40, 3)), B(ACK), B(ACK), B(short(0x40, 3)), B(ACK), B(ACK)]
            for tr in ('tcp', 'ser'): cs.append(life([('new',), ('connect',), ('opt', 2, v), ('recv',), ('opt', 2, w), ('recv',), ('disconnect',), ('free',), ('new',), ('connect',), ('recv',), ('recv',)], tr, pre=pre, tag='echo'))
    for ms in (0, 1, 999, 1000, 1001, 2500, 4000, 60000, 3600000, -1, -999, -1000, -60000):
        cs.append(life([('tmo', ms), ('new',), ('connect',), ('disconnect',), ('tmo', 1500), ('connect',), ('tmo', ms), ('disconnect',), ('connect',)], 'tcp', tag='timeout'))
    for _ in range(1500 if k.quick else 20000): cs.append(random_life(r, r.randrange(2, 14)))
    k.sessions(cs, 'TraceHandle', shape=shape)
    return k.finish(assumptions=['connecting a connected handle is not prescribed beyond closing nothing twice', 'the option names are those of the interface'])

def c21(k):
    k.build(); r = k.rng
    cs = model_lives(k, 'LineModel', 3000 if k.quick else None)
    odd = [0, 1, -1, -300, 50, 75, 110, 134, 150, 200, 299, 301, 1800, 2399, 2401, 9599, 9601, 14400, 38399, 38401, 57600, 76800, 115200, 230400, 2**31 - 1, -2**31, 2**32 + 300, 2**32 + 2400, 13, 15]
    for a in RATES + odd:
        cs.append(life([('new',), ('setbaud', a), ('connect',), ('setbaud', a), ('disconnect',), ('setbaud', a), ('connect',)], 'ser', tag='rate'))
        for b in RATES:
            for t in ('', 'of', 'oof', 'off', 'fo'):
                cs.append(life([('new',), ('connect',), ('setbaud', a), ('setbaud', b), ('setbaud', b), ('disconnect',), ('connect',)], 'ser', t=t, tag='pair'))
    for _ in range(600 if k.quick else 8000):
        ops = [('new',), ('connect',)]
        for _ in range(r.randrange(1, 10)):
            x = r.randrange(10); ops.append(('setbaud', r.choice(RATES + [r.choice(odd)])) if x < 8 else ('connect',) if ops[-1][0] == 'disconnect' else ('disconnect',))
        cs.append(life(ops, 'ser', ''.join(r.choice('ooooox') for _ in range(5)), ''.join(r.choice('oooof') for _ in range(12)), tag='random'))
    k.sessions(cs, 'TraceHandle', shape=shape)
    return k.finish(assumptions=['the line settings are those last accepted by the device'])

NAMES = ['gateway.test', '10.1.2.3', '::1', 'fe80::1%eth0', 'a', '', 'localhost', 'm-bus.example.org', 'Zaehler-7.', '/dev/ttyUSB0', '/dev/ttyS10', '/dev/serial/by-id/usb-FTDI_FT232R-if00-port0', 'COM1', './tty', 'with blank',
         'half%shalf%n', '%d%d%d', 'gr\xfc\xdf', 'x' * 63, 'y' * 107, 'z' * 108, 'h' * 127, 'i' * 128, 'j' * 255, 'k' * 256, 'l' * 1024, '/' + 'd/' * 1500 + 'tty']
PORTS = sorted({0, 1, 9, 10, 22, 99, 100, 999, 1000, 9999, 10000, 10001, 12345, 32767, 32768, 65534, 65535, 256, 255, 4096})
def place(r):
    s = r.choice(NAMES) if r.random() < .6 else ''.join(chr(r.choice([r.randrange(1, 256), r.randrange(33, 127)])) for _ in range(r.choice([1, 2, 5, 12, 30, 63, 64, 126, 200])))
    return s.replace('\n', 'n'), r.choice(PORTS) if r.random() < .5 else r.randrange(65536)
def c34(k):
    k.build(); r = k.rng
    cs = model_lives(k, 'PlaceModel', 2500 if k.quick else None)
    if not k.quick: k.model('HandleModel', 'PlaceModelDeep')
    for tr in ('tcp', 'ser'):
        for n in NAMES:
            for o in ('o', 'x' if tr == 'ser' else 'n', 'kk', 'ckckc', 'co'):
                cs.append(life([('new', n, 10001), ('connect',), ('disconnect',), ('connect',), ('disconnect',), ('free',), ('new', 'b' + n, 9), ('connect',), ('connect',)], tr, o, tag='name'))
    for p in PORTS if k.quick else range(65536): cs.append(life([('new', 'gateway.test', p), ('connect',), ('disconnect',), ('connect',)], 'tcp', r.choice(['', 'co', 'ko', 'cck', 'n']), tag='port'))
    for _ in range(1500 if k.quick else 20000):
        tr = r.choice(['tcp', 'ser']); ops = []
        for _ in range(r.randrange(1, 4)):
            ops.append(('new',) + place(r))
            for _ in range(r.randrange(1, 5)):
                ops.append(('connect',)); x = r.randrange(6)
                if x == 0: ops.append(('opt', r.randrange(3), r.randrange(3)))
                if x == 1: ops.append(('ping', r.randrange(251)))
                if x == 2: ops.append(('setbaud', r.choice(RATES)) if tr == 'ser' else ('tmo', r.choice([0, 1, 250, 1000, 4000, 60000])))
                if x == 3: ops.append(('null',))
                ops.append(('disconnect',))
            ops.append(('free',))
        cs.append(life(ops, tr, ''.join(r.choice('ooooonkcc') if tr == 'tcp' else r.choice('oox') for _ in range(14)), ''.join(r.choice('ooof') for _ in range(14)) if tr == 'ser' else '', tag='random'))
    k.sessions(cs, 'TraceHandle', shape=shape)
    return k.finish(assumptions=['a name has two addresses of different families', 'one resolution per connection'])
