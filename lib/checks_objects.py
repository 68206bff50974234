"""C36: objects held side by side are independent of each other and of what was done before."""
import json
from core import *
from checks_frame import rframe, img
from checks_data import payload, rec, random_record, member, lines_of, HDR, rb, START
from checks_master import cases_in

def dats(ds): return ','.join(hx([c, ci] + list(d)) for c, ci, d in ds)
def jds(ds): return [{'c': c, 'ci': ci, 'd': list(d), 'at': [START // 86400, START % 86400]} for c, ci, d in ds]
def good(r): return HDR[:4] + rb(r, 8) + [b for _ in range(r.choice([0, 1, 1, 2, 3])) for b in random_record(r, 40)] + r.choice([[], [], [], [0x1F], [0x0F] + rb(r, 3), [0x2F, 0x2F]])
def hold(r, what, good):
    """a step that makes an object of a kind, of some content"""
    k, at = what['k'], what['at']; of = what.get('of')
    if k == 'F':
        d = img((4, r.choice([8, 0x18]), r.randrange(256), 0x72, good(r))) if r.random() < .7 else img(rframe(r))
        return {'k': k, 'd': d}, hx(d)
    if k == 'f': d = img((4, r.choice([8, 0x18]), r.randrange(256), 0x72, good(r))) if r.random() < .7 else img(rframe(r)); return {'k': k, 'd': d}, hx(d)
    if k == 'c': ds = [(8, 0x72, good(r))] if r.random() < .8 else [(8, 0x70, [r.randrange(10)])]; return {'k': k, 'ds': jds(ds)}, dats(ds)
    if k in 'De':
        c, ci, d = (8, 0x72, good(r)) if r.random() < .7 else member(r, 'vvefx'); d = list(d); return {'k': k, 'c': c, 'ci': ci, 'd': d}, '%d:%d:%s' % (c, ci, hx(d))
    if k in 'CX':
        ds = [(8, 0x72, good(r)) if r.random() < .7 else member(r, 'vvvef') for _ in range(r.choice([1, 2, 3]))]; return {'k': k, 'ds': jds(ds)}, dats(ds)
    if k == 'N': n = r.choice([1, 1, 2]); return {'k': k, 'of': of, 'n': n}, '%d:%d' % (of, n)
    return {'k': k, 'of': of}, str(of)
def refused(r, k, at):
    cut = HDR + [1, 0x13, 7] * r.randrange(3); cut = cut[:r.choice([3, 11])] if r.random() < .3 else cut + [4, 0x13, 1] if r.random() < .5 else cut + [0x8D] + [0x80] * r.choice([11, 12]) + [1]
    if k == 'F': d = img((4, 8, 1, 0x72, good(r))); d[r.choice([-1, -2, 3])] ^= 0x41; return {'k': k, 'd': d}, hx(d)
    if k == 'D': return {'k': k, 'c': 8, 'ci': 0x72, 'd': cut}, '8:114:%s' % hx(cut)
    ds = [(8, 0x72, good(r)) for _ in range(r.choice([0, 1, 2]))] + [(8, 0x72, cut)]; return {'k': k, 'ds': jds(ds)}, dats(ds)
def history(r, log, tag):
    """after every step everything held is shown"""
    steps, cmd, held, used = [], [], {}, []
    def again(r):                             # the same content more than once
        if used and r.random() < .4: return r.choice(used)
        used.append(good(r)); return used[-1]
    for s in log:
        at = s['at']
        if s['do'] == 'release': steps.append({'do': 'release', 'at': at}); cmd.append('!r%d' % at); held.pop(at)
        else:
            i, a = refused(r, s['k'], at) if s['do'] == 'refuse' else hold(r, s, again)
            steps.append({'do': 'make', 'at': at, **i}); cmd.append('!m%d:%s:%s' % (at, i['k'], a)); held[at] = {'f': 'F', 'c': 'C', 'e': 'D'}.get(i['k'], i['k'])
            if s['do'] == 'refuse': steps.append({'do': 'show', 'at': at}); cmd.append('!s%d' % at); held.pop(at)
        for p in r.sample(sorted(held), len(held)): steps.append({'do': 'show', 'at': p}); cmd.append('!s%d' % p)
    for p in r.sample(sorted(held), len(held)): steps.append({'do': 'release', 'at': p}); cmd.append('!r%d' % p)
    return Case('objects', 'objects ' + ' '.join(cmd), {'steps': steps}, tag)
DERIVED = {'F': 'd', 'C': 'x', 'D': 'N', 'd': 'N'}
def wander(r, n, places, kinds='FDCX', derive=.45):
    held, log = {}, []
    while len(log) < n:
        again = [p for p in held if held[p] in 'FCDd']
        if again and r.random() < .15: p = r.choice(again); log.append({'do': 'make', 'k': {'F': 'f', 'C': 'c'}.get(held[p], 'e'), 'at': p})
        elif len(held) < places and (not held or r.random() < .6):
            at = r.choice([p for p in range(places) if p not in held]); x = r.random()
            src = [p for p in held if held[p] in DERIVED]
            if x < .15: log.append({'do': 'refuse', 'k': r.choice('FDX'), 'at': at})
            elif x < .15 + derive and src: p = r.choice(src); held[at] = DERIVED[held[p]]; log.append({'do': 'make', 'k': held[at], 'at': at, 'of': p})
            else: held[at] = r.choice(kinds); log.append({'do': 'make', 'k': held[at], 'at': at})
        else: p = r.choice(sorted(held)); held.pop(p); log.append({'do': 'release', 'at': p})
    return log
def c36(k):
    k.build(); r = k.rng; q = k.quick
    logs = sorted((j['s'] for j in cases_in(k.model('ObjectsModel'))), key=lambda l: json.dumps(l, sort_keys=True))
    if not q: k.model('ObjectsModel', 'ObjectsModelDeep')
    logs = r.sample(logs, 900 if q else 10000)
    cs = [history(r, l, 'every order') for l in logs]
    for _ in range(60 if q else 600): cs.append(history(r, wander(r, r.choice([8, 12, 20]), r.choice([3, 5, 9])), 'long'))
    for kinds in ('D', 'FD', 'C', 'CX', 'F'):                       # many of one kind
        for _ in range(36 if q else 250): cs.append(history(r, wander(r, r.choice([10, 16, 24]), r.choice([5, 7, 9]), kinds, .7), 'of one kind'))
    k.run(cs[::2]); k.reuse = True; k.run(cs[1::2])
    for c in cs:
        for o in c.out.get('steps', []):
            o.pop('j', None)
            if 'chain' in o: o['chain'] = lines_of(o['chain'])
    k.pure_done(cs)
    return k.finish(assumptions=['histories of up to five steps over three places in every order, longer ones at random; everything held is shown after every step', 'memory is watched for use after release'])
