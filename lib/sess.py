"""Sessions: programs of library calls on a virtual transport, as driver commands and as inputs of the specification."""
from core import Case, hx
def codes(s): return [ord(c) for c in s]
def B(bs): return ('B', list(bs))
T = ('T', []); E = ('E', []); Z = ('Z', []); I = ('I', [])
def istr(items): return ','.join(('x' + hx(d)) if k == 'B' else k for k, d in items)
def ijs(items): return [{'k': k, 'd': list(d)} for k, d in items]
ACK = [0xE5]
def short(c, a): return [0x10, c, a, (c + a) & 255, 0x16]
def long_(c, a, ci, d=()):
    b = [c, a, ci] + list(d); return [0x68, len(b), len(b), 0x68] + b + [sum(b) & 255, 0x16]
def header(sec, acc=0x55, sta=0): return list(sec) + [acc, sta, 0, 0]
def rsp(a, payload, c=0x08): return long_(c, a, 0x72, payload)
# a call: (driver argument, specification input)
def ping(a, p=0): return ('ping:%d:%d' % (a, p), {'op': 'ping', 'addr': a, 'purge': p})
def req(a): return ('req:%d' % a, {'op': 'req', 'addr': a})
def ud(a, d, null=0): return ('ud:%d:%s%s' % (a, hx(d), ':n' if null else ''), {'op': 'ud', 'addr': a, 'd': list(d), 'null': int(null)})
def areset(a, s): return ('areset:%d:%d' % (a, s), {'op': 'areset', 'addr': a, 'sub': s})
def baud(a, r): return ('baud:%d:%d' % (a, r), {'op': 'baud', 'addr': a, 'rate': r})
def setaddr(a, n): return ('setaddr:%d:%d' % (a, n), {'op': 'setaddr', 'addr': a, 'new': n})
def selframe(m): return ('selframe:' + m, {'op': 'selframe', 'm': codes(m)})
def send(t, c, a, ci, d): return ('send:%d:%d:%d:%d:%s' % (t, c, a, ci, hx(d)), {'op': 'send', 'f': {'t': t, 'c': c, 'a': a, 'ci': ci, 'd': list(d)}})
def recv(): return ('recv', {'op': 'recv'})
def recvn(): return ('recvn', {'op': 'recvn'})
def sendn(): return ('sendn', {'op': 'sendn'})
def drecv(): return ('drecv', {'op': 'drecv'})
def purge(): return ('purge', {'op': 'purge'})
def select(m): return ('select:' + m, {'op': 'select', 'm': codes(m)})
def probe(m): return ('probe:' + m, {'op': 'probe', 'm': codes(m)})
def scan(p, m): return ('scan:%d:%s' % (p, m), {'op': 'scan', 'pos': p, 'm': codes(m)})
def rr(a, mx): return ('rr:%d:%d' % (a, mx), {'op': 'rr', 'addr': a, 'max': mx})
def readp(a): return ('read:p:%d' % a, {'op': 'read', 'prim': 1, 'addr': a, 'm': []})
def reads(m): return ('read:s:' + m, {'op': 'read', 'prim': 0, 'addr': 0, 'm': codes(m)})

def session(ops, tr='tcp', pre=(), rep=(), pop=None, cm=0, w='', tty=1, echo=1, sr=1, dr=3, cb=1, fcb=1, tag=''):
    cmd = 'sess tr=%s tty=%d cb=%d fcb=%d purge=%d sr=%d dr=%d' % (tr, tty, cb, fcb, echo, sr, dr)
    w = ''.join(w)
    if w: cmd += ' w=' + w
    if pre: cmd += ' pre=' + istr(pre)
    if rep: cmd += ' rep=' + ';'.join(istr(x) for x in rep) + ';'
    if pop is not None: cmd += ' pop=%s cm=%d' % (pop, cm)
    cmd += ''.join(' !' + o for o, _ in ops)
    i = {'tr': tr, 'tty': tty, 'pre': ijs(pre), 'w': list(w), 'echo': echo, 'sr': sr, 'dr': dr, 'cb': cb, 'fcb': fcb, 'script': [x for _, x in ops]}
    return Case('sess', cmd, i, tag)

FAILONLY = {'ping', 'req', 'ud', 'areset', 'baud', 'setaddr', 'selframe', 'send', 'sendn', 'recvn', 'rr', 'read', 'scan', 'setbaud', 'tmo', 'opt', 'connect', 'disconnect', 'new', 'free'}
def untext(s):
    o, k = [], 0
    while k < len(s):
        if s[k] == '%' and s[k:] != '%NULL': o.append(int(s[k+1:k+3], 16)); k += 3
        else: o.append(ord(s[k])); k += 1
    return o
def events(evs):
    """the recorded events in the form the specification uses: a failing call is -1 whatever its number"""
    out, op = [], None
    for e in evs:
        e = dict(e)
        if e['e'] == 'call': op = e['op']; e.pop('a', None)
        elif e['e'] == 'ret':
            if op in FAILONLY and e['v'] != 0: e['v'] = -1
            if op == 'scan': e['m'] = untext(e['m'])
        elif e['e'] == 'prog': e['m'] = untext(e['m'])
        out.append(e)
    return out
