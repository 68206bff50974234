"""Check infrastructure: build, run cases through the driver, let TLC judge the traces, report."""
import os, sys, json, time, random, shutil, subprocess, tempfile, re, threading
import concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from build import build, BuildError, VERIF, REPO
SPEC = VERIF + '/spec'
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = min(8, os.cpu_count() or 4)

class CheckError(Exception): pass

def hx(bs): return bytes(bs).hex()

class Case:
    """one execution: `cmd` is the driver line without its id, `i` the inputs the specification sees, `op` the trace operation"""
    __slots__ = ('op', 'cmd', 'i', 'id', 'out', 'tag')
    def __init__(self, op, cmd, i=None, tag=''):
        self.op, self.cmd, self.i, self.tag = op, cmd, i, tag; self.id = None; self.out = None

class Check:
    def __init__(self, prop):
        self.prop = prop; self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick'); self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.quick = self.tier != 'thorough'
        self.rng = random.Random(self.seed * 1000003 + int(re.sub(r'\D', '', prop) or 0))
        os.makedirs(VERIF + '/build', exist_ok=True); os.makedirs(VERIF + '/evidence', exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix='chk_%s_' % prop, dir=VERIF + '/build')
        self.viol = []; self.ncases = 0; self.states = 0; self.trans = 0; self.validated = 0; self.samples = []; self.notes = []; self.distinct = set(); self.models = []
        self.crashes = 0
        self.drv = None
        self.reuse = False                # released memory is handed out again at once
        from sess import events; self.evmap = events
        self.known = load_known(prop); self.known_hit = set()
    def build(self):
        self.drv = build(self.dir + '/obj'); return self.drv
    # ------------------------------------------------------------------ execution
    def _run_chunk(self, cases):
        todo = list(cases)
        while todo:
            inp = ''.join('%d %s\n' % (c.id, c.cmd) for c in todo)
            e = {**os.environ, 'ASAN_OPTIONS': 'quarantine_size_mb=0:thread_local_quarantine_size_kb=0'} if self.reuse else None
            p = subprocess.run([self.drv], input=inp.encode('latin-1'), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=self.dir, env=e)
            got = {}
            for ln in p.stdout.decode('latin-1').split('\n'):
                if not ln.strip(): continue
                try: o = json.loads(ln)
                except ValueError: break
                got[o['id']] = o
            k = 0
            while k < len(todo) and todo[k].id in got: todo[k].out = got[todo[k].id]; k += 1
            if k == len(todo): break
            err = p.stderr.decode('latin-1', 'replace')
            m = re.search(r'(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*|SUMMARY[^\n]*)', err)
            frames = re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+) \S*/(\S+)', err)[:6]
            sig = {-14: 'does not terminate (alarm)', -11: 'segmentation fault', -6: 'abort'}.get(p.returncode, 'exit %d' % p.returncode)
            todo[k].out = {'id': todo[k].id, 'crash': (m.group(1) if m else sig) + ' @ ' + ' < '.join('%s %s' % f for f in frames)}
            todo = todo[k+1:]
    def run(self, cases):
        """executes the cases in the code; fills in case.out"""
        for c in cases:
            c.id = self.ncases + 1; self.ncases += 1
        n = max(1, min(NCPU, (len(cases) + 15) // 16))
        with cf.ThreadPoolExecutor(n) as ex: list(ex.map(self._run_chunk, [cases[i::n] for i in range(n)]))
        for c in cases:
            if 'crash' in c.out and not c.out.get('ev_crash_ok'):
                self.crashes += 1; self.violation(c, 'the code misbehaved: ' + str(c.out['crash'])[:600])
            if 'unknown' in c.out: raise CheckError('driver does not know ' + c.cmd[:80])
        return cases
    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=NCPU, extra=(), timeout=800, heap='6g', what=None, must_pass=True):
        """run TLC; returns its output. A violated invariant of the specification itself is an error of the check."""
        md = tempfile.mkdtemp(prefix='md', dir=self.dir)
        a = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m', '-cp', CP, 'tlc2.TLC', '-metadir', md, '-workers', str(workers), '-deadlock', '-noGenerateSpecTE',
             '-config', (cfg or module) + '.cfg', *extra, module + '.tla']
        e = dict(os.environ); e.update(env or {})
        try: p = subprocess.run(a, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired: raise CheckError('TLC timed out on ' + module)
        finally: shutil.rmtree(md, ignore_errors=True)
        o = p.stdout.decode('utf-8', 'replace'); o = re.sub(r'^(Parsing file|Semantic processing|TLC2 Version|Running ).*\n', '', o, flags=re.M)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', o) or re.search(r'(\d+) states generated', o)
        gen = int(m.group(1)) if m else 0; dis = int(m.group(2)) if m and m.lastindex > 1 else gen
        if must_pass and p.returncode != 0:
            raise CheckError('TLC failed (%d) on %s %s:\n%s' % (p.returncode, module, cfg or '', o[:6000]))
        return o, p.returncode, gen, dis
    def model(self, module, cfg=None, env=None, **kw):
        """exhaustive exploration of a specification: states and transitions count as evidence"""
        try: o, rc, gen, dis = self.tlc(module, cfg, env, **kw)
        except CheckError: o, rc, gen, dis = self.tlc(module, cfg, env, **{**kw, 'workers': 1})
        self.states += dis; self.trans += gen; self.models.append({'module': module, 'config': cfg or module, 'distinct_states': dis, 'transitions': gen})
        return o
    def validate(self, module, cases, shape, cfg=None, env=None, **kw):
        """TLC decides whether each recorded execution is one the specification allows"""
        live = [c for c in cases if 'crash' not in c.out]
        if not live: return
        # TLC shares values between its workers, so every worker is a process of its own
        n = max(1, min(NCPU, (len(live) + 119) // 120)); parts = [live[j::n] for j in range(n)]
        def one(part):
            tf = tempfile.mktemp(prefix='trace', suffix='.ndjson', dir=self.dir)
            with open(tf, 'w') as f:
                for c in part: f.write(json.dumps(shape(c)) + '\n')
            e = {'TRACE': tf}; e.update(env or {})
            return self.tlc(module, cfg, e, workers=1, heap='3g', **kw)
        with cf.ThreadPoolExecutor(n) as ex: res = list(ex.map(one, parts))
        gen = sum(x[2] for x in res); dis = sum(x[3] for x in res); o = '\n'.join(x[0] for x in res)
        self.states += dis; self.trans += gen
        self.models.append({'module': module, 'config': cfg or module, 'distinct_states': dis, 'transitions': gen, 'traces': len(live)})
        byid = {c.id: c for c in live}; return o, byid
    def pure(self, cases):
        """cases of argument-to-result kind"""
        for c in cases[5::11]:                  # and the trace of the parser is on
            if c.op in ('parse', 'pack', 'vdata', 'xml', 'getaddr') and 'oom' not in c.cmd: c.cmd += ' dbg=1'
        self.run(cases); self.pure_done(cases)
    def pure_done(self, cases):
        r = self.validate('TracePure', cases, lambda c: {'id': c.id, 'op': c.op, 'i': c.i, 'o': {k: v for k, v in c.out.items() if k not in ('id', 'na')}})
        if r is None: return
        o, byid = r; bad = set()
        for m in re.finditer(r'"REJECT (\d+) expected (.*)"', o):
            i = int(m.group(1)); bad.add(i); self.violation(byid[i], 'observed %s; the specification requires %s' % (json.dumps(byid[i].out)[:1500], m.group(2)[:1500]))
        self.validated += len(byid) - len(bad); self.sample([c for c in cases if c.id in byid])
    def shape(self, c): return {'id': c.id, 'i': c.i, 'ev': self.evmap(c.out['ev']), 'o': {k: v for k, v in c.out.items() if k not in ('id', 'ev')}}
    def sessions(self, cases, module='TraceMaster', cfg=None, shape=None, **kw):
        """cases that are histories of events: accepted when TLC reaches the end of the recorded history"""
        self.run(cases); self.sessions_done(cases, module, cfg, shape, **kw)
    def sessions_done(self, cases, module='TraceMaster', cfg=None, shape=None, **kw):
        shape = shape or self.shape
        r = self.validate(module, cases, shape, cfg, **kw)
        if r is None: return
        o, byid = r
        ok = {int(x) for x in re.findall(r'"ACCEPT (\d+)"', o)}
        far = {}
        bad = [i for i in byid if i not in ok]
        why = {int(a): b for a, b in re.findall(r'"REJECT (\d+) ([^\n]*)"', o)}
        if bad:
            for a, b in re.findall(r'"AT (\d+) (\d+)"', self._diagnose(module, cfg, [byid[i] for i in bad[:8]], shape, kw)): far[int(a)] = max(far.get(int(a), 0), int(b))
        for i in bad:
            c = byid[i]; k = far.get(i); y = shape(c); evs = y.get('calls') or y.get('ev') or c.out['ev']
            self.violation(c, (why.get(i, '') + ' ' if i in why else '') + ('the history stops being one the specification allows at event %d: %s (after %s)' % (k, json.dumps(evs[k-1])[:700] if 0 < k <= len(evs) else 'end', json.dumps(evs[max(0, k-4):k-1])[:900]) if k else 'rejected history %s' % json.dumps(evs)[:1500]))
        self.validated += len(ok & set(byid)); self.sample([c for c in cases if c.id in byid])
    def _diagnose(self, module, cfg, cases, shape, kw):
        tf = tempfile.mktemp(prefix='diag', suffix='.ndjson', dir=self.dir)
        with open(tf, 'w') as f:
            for c in cases: f.write(json.dumps(shape(c)) + '\n')
        try: return self.tlc(module, cfg, {'TRACE': tf, 'DIAG': '1', **(kw.get('env') or {})}, workers=1, must_pass=False)[0]
        except CheckError: return ''
    # ------------------------------------------------------------------ reporting
    def sample(self, cases):
        for c in cases: self.distinct.add(c.cmd)
        if len(self.samples) < 6:
            for c in self.rng.sample(cases, min(2, len(cases))): self.samples.append({'case': c.cmd[:400], 'observed': json.dumps(c.out)[:600]})
    def violation(self, c, why):
        for k in self.known:
            if k['match'] in c.cmd and k.get('why', '') in why:
                self.known_hit.add(k['match']); return
        self.viol.append((c, why))
    def finish(self, level='model_checking', assumptions=()):
        for k in self.known:
            if k['match'] in self.known_hit: print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        ev = {'property': self.prop, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick', 'seed': self.seed, 'level': level,
              'coverage': {'states': self.states, 'transitions': self.trans, 'traces_validated_against_impl': self.validated, 'samples': self.samples or ['none'],
                           'executions': self.ncases, 'distinct_executions': len(self.distinct), 'specifications': self.models},
              'assumptions': list(assumptions), 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol)}
        if self.notes: ev['coverage']['notes'] = self.notes
        json.dump(ev, open(VERIF + '/evidence/%s.json' % self.prop, 'w'), indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        if self.viol:
            d = VERIF + '/build/replay'; os.makedirs(d, exist_ok=True); path = d + '/%s.txt' % self.prop
            with open(path, 'w') as f:
                f.write('property %s: %d executions of the real code break it. Each can be repeated with:\n  python3 /verif/lib/build.py /tmp/x && echo "1 <case>" | /tmp/x/drv\n\n' % (self.prop, len(self.viol)))
                for c, why in self.viol[:200]: f.write('case: %s\ntag: %s\nwhy: %s\n\n' % (c.cmd, c.tag, why))
            c, why = self.viol[0]
            print('violating case: %s\n  %s' % (c.cmd[:1500], why[:2000]))
            print('VIOLATION property=%s replay=%s' % (self.prop, path)); return 1
        print('OK property=%s executions=%d validated=%d states=%d in %.1fs' % (self.prop, self.ncases, self.validated, self.states, time.time() - self.t0)); return 0

def load_known(prop):
    r = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('{'):
                d = json.loads(ln)
                if d.get('property') == prop and d.get('status') == 'open': r.append(d)
    return r
