"""C32: calls that lack what they work on, and buffers of any size."""
from core import *
from checks_master import cases_in
def absent(f, miss, tr, cb=0):
    miss = sorted(miss)
    return Case('absent', 'absent f=%s miss=%s tr=%s cb=%d pre=xe5' % (f, ','.join(miss), tr, cb), {'f': f, 'miss': miss}, 'absent')
def text(f, d, n): return Case('text', 'text f=%s d=%s n=%d' % (f, hx(d), n), {'f': f, 'd': list(d), 'n': n}, 'text')
def c32(k):
    k.build(); r = k.rng
    js = cases_in(k.model('AbsentModel'))
    k.pure([absent(j['f'], j['miss'], tr, cb) for j in js for tr in ('ser', 'tcp') for cb in (0, 1)])
    cs = []
    for f in ('bin', 'raw'):
        for l in list(range(0, 8)) + [80, 255]:
            for n in range(1, 3 * l + 4): cs.append(text(f, [r.randrange(256) for _ in range(l)], n))
    special = [38, 60, 62, 34, 39, 32, 1, 9, 10, 31, 127, 128, 160, 255, 65, 97, 59]
    for b in range(1, 256): cs.append(text('xml', [b], 20)); cs.append(text('xml', [65, b, 66], r.randrange(1, 22)))
    for _ in range(600 if k.quick else 20000):
        d = [r.choice(special) if r.random() < .6 else r.randrange(1, 256) for _ in range(r.choice([0, 1, 2, 5, 12, 60]))]
        cs.append(text('xml', d, r.choice([r.randrange(1, 40), r.randrange(1, 400), 6 * len(d) + 7, max(1, len(d) + r.randrange(-3, 12))])))
    for n in range(1, 40): cs.append(text('xml', [34] * 5, n)); cs.append(text('xml', [60, 62] * 3, n)); cs.append(text('xml', [65] * 20, n))
    k.pure(cs)
    return k.finish()
