"""Shared machinery: build drivers from /repo, run scripts, validate recorded traces with TLC, report, write evidence."""
import os, sys, json, time, subprocess, hashlib, tempfile, shutil, re, random, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
DRV = os.path.join(VERIF, 'drivers')
EVID = os.path.join(VERIF, 'evidence')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    pass


# ---------------------------------------------------------------- build
BASE_FLAGS = ['-std=c++14', '-O1', '-g1', '-pthread', '-w',
              '-DLISTEN_QUEUE_SIZE=64', '-DUSE_SSL', '-DNOMINMAX', '-Dhtonf', '-Dhtonll', '-Dntohll', '-Dhtond',
              '-Dntodh', '-DFRNETLIB_STATIC']
LIMITS = ['-DMAX_HTTP_HEADER_SIZE=0xC800', '-DMAX_HTTP_BODY_SIZE=0xA00000']
LINK = ['-lmbedtls', '-lmbedx509', '-lmbedcrypto', '-lpthread', '-ldl']


def _hash_tree():
    h = hashlib.sha256()
    for root in (REPO + '/include', REPO + '/src', DRV):
        for f in sorted(glob.glob(root + '/**/*', recursive=True)):
            if os.path.isfile(f):
                h.update(f.encode())
                h.update(open(f, 'rb').read())
    return h


def build(driver, limits=None, sanitize=True, std='c++14', extra=()):
    """Compile drivers/<driver>.cpp together with every source file of /repo/src. Returns the executable's path."""
    flags = list(BASE_FLAGS)
    flags[0] = '-std=' + std
    flags += (limits if limits is not None else LIMITS) + list(extra)
    if sanitize:
        flags += ['-fsanitize=address', '-fno-omit-frame-pointer']
    flags += ['-I' + REPO + '/include', '-I' + DRV]
    h = _hash_tree()
    h.update(repr((driver, flags)).encode())
    cache = os.path.join(VERIF, '.cache')
    os.makedirs(cache, exist_ok=True)
    exe = os.path.join(cache, driver + '-' + h.hexdigest()[:20])
    if os.path.exists(exe):
        return exe
    for old in glob.glob(os.path.join(cache, driver + '-*')):
        try:
            if time.time() - os.path.getmtime(old) > 3 * 3600:
                os.unlink(old)
        except OSError:                      # somebody else's build
            pass
    work = tempfile.mkdtemp(prefix='b-', dir=cache)
    try:
        srcs = sorted(glob.glob(REPO + '/src/*.cpp')) + [os.path.join(DRV, driver + '.cpp')]
        objs = [os.path.join(work, os.path.basename(s) + '.o') for s in srcs]

        def cc(so):
            return subprocess.run(['g++'] + flags + ['-c', so[0], '-o', so[1]], stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT, text=True)
        with ThreadPoolExecutor(NPROC) as ex:
            for r in ex.map(cc, zip(srcs, objs)):
                if r.returncode:
                    raise CheckError('compilation failed:\n' + r.stdout[-4000:])
        r = subprocess.run(['g++'] + flags + objs + ['-rdynamic', '-o', exe + '.tmp'] + LINK, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError('link failed:\n' + r.stdout[-4000:])
        os.rename(exe + '.tmp', exe)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return exe


# ---------------------------------------------------------------- scripts
class Scenario:
    """One scripted history: header parameters (dict of ints/strings), and op lines."""
    def __init__(self, name, ops, src='random', **params):
        self.name, self.ops, self.src, self.params = name, ops, src, params

    def text(self, idx):
        p = ' '.join('%s=%s' % kv for kv in sorted(self.params.items()))
        return 'S %d %s\n' % (idx, p) + ''.join(o + '\n' for o in self.ops) + 'E\n'


def hx(b):
    return bytes(b).hex() if len(b) else '-'


def rle(b):
    return hx(b)


def run_driver(exe, items, work, tag, timeout=600, env=None):
    """items: list of (idx, Scenario). Returns list of trace lines (str)."""
    sp = os.path.join(work, tag + '.script')
    tp = os.path.join(work, tag + '.ndjson')
    with open(sp, 'w') as f:
        for i, s in items:
            f.write(s.text(i))
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=0:handle_segv=1:symbolize=0:max_free_fill_size=1048576:free_fill_byte=187'
    e.update(env or {})
    try:
        r = subprocess.run([exe, sp, tp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=work)
    except subprocess.TimeoutExpired:
        raise CheckError('driver timed out')
    if r.returncode:
        raise CheckError('driver failed rc=%d: %s' % (r.returncode, r.stderr[-2000:].decode('latin1')))
    with open(tp) as f:
        return tp, f.read().splitlines()


# ---------------------------------------------------------------- TLC
def tlc(module, cfg, work, env=None, workers=1, heap='3g', timeout=850, extra=()):
    meta = tempfile.mkdtemp(prefix='tlc-', dir=work)
    e = dict(os.environ)
    e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap,
           '-XX:TieredStopAtLevel=4', '-Djava.io.tmpdir=' + meta, '-cp', CP, 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE',
           '-workers', str(workers), '-config', cfg] + list(extra) + [module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e,
                           timeout=timeout)
        out = r.stdout
    except subprocess.TimeoutExpired:
        raise CheckError('TLC timed out on ' + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, out


def tlc_stats(out):
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def model_check(module, cfg, work, workers=4, timeout=850, heap='6g', env=None):
    rc, out = tlc(module + '.tla', cfg, work, workers=workers, timeout=timeout, heap=heap, env=env)
    if 'Model checking completed. No error has been found' not in out:
        raise CheckError('model checking of %s with %s failed:\n%s' % (module, cfg, out[-5000:]))
    g, d = tlc_stats(out)
    return dict(module=module, cfg=cfg, generated=g, distinct=d)


def generate(module, cfg, work, timeout=300, env=None, extra=()):
    """Run a Gen_ module; collect lines it prints as GEN <json>."""
    rc, out = tlc(module + '.tla', cfg, work, timeout=timeout, env=env, extra=extra)
    if 'No error has been found' not in out and (not extra or 'Error:' in out):
        raise CheckError('generation with %s failed:\n%s' % (module, out[-3000:]))
    res = []
    for line in out.splitlines():
        if line.startswith('"GEN '):
            res.append(json.loads(json.loads(line)[4:]))
    g, d = tlc_stats(out)
    return res, dict(module=module, cfg=cfg, generated=g, distinct=d)


def validate(module, trace_path, nlines, work, timeout=850, env=None):
    """Validate one ndjson file. Returns (rejects: list of line numbers(1-based)->state json, stats)."""
    rc, out = tlc(module + '.tla', 'Trace.cfg', work, env=dict(env or {}, TRACE=trace_path), timeout=timeout)
    if 'Model checking completed. No error has been found' not in out:
        # an observation outside the domain the specification is defined on is not one of its behaviours
        ls = re.findall(r'^/\\ l = (\d+)', out, re.M)
        if ('evaluat' in out or 'Attempted' in out) and ls and 1 <= int(ls[-1]) <= nlines and 'OutOfMemory' not in out:
            return {int(ls[-1]): 'EVALUATION ' + out[-1500:]}, (0, 0)
        raise CheckError('trace validation with %s failed to run:\n%s' % (module, out[-5000:]))
    g, d = tlc_stats(out)
    m = re.search(r'The depth of the complete state graph search is (\d+)', out)
    depth = int(m.group(1)) if m else -1
    if depth != nlines + 1:
        raise CheckError('trace validation with %s consumed %d of %d lines' % (module, depth - 1, nlines))
    rej = {}
    for line in out.splitlines():
        if line.startswith('"REJECT '):
            try:
                t = json.loads(line)
            except ValueError:
                t = line[1:-1]
            w = t.split(' ', 2)
            rej[int(w[1])] = w[2] if len(w) > 2 else ''
    return rej, (g, d)


# ---------------------------------------------------------------- the generic pipeline
class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % prop, dir='/tmp')
        self.models, self.gens = [], []
        self.events = {}
        self.nscen = self.nlines = 0
        self.distinct = set()
        self.tstates = self.ttrans = 0
        self.violations = []
        self.known = []
        self.samples = []
        self.notes = []
        self.selftest = None
        self.sources = {}

    def quick(self):
        return self.tier == 'quick'

    def rng(self, salt=''):
        return random.Random('%s-%s-%d' % (self.prop, salt, self.seed))

    def model(self, module, cfg=None, **kw):
        """Model check in the background; joined in finish()."""
        if not hasattr(self, 'bg'):
            self.bgx = ThreadPoolExecutor(3)
            self.bg = []
        self.bg.append(self.bgx.submit(model_check, module, cfg or module + '.cfg', self.work, **kw))

    def join(self):
        for f in getattr(self, 'bg', []):
            self.models.append(f.result())
        self.bg = []

    def both(self, *fs):
        """Run functions in parallel, return their results."""
        with ThreadPoolExecutor(len(fs)) as ex:
            return [f.result() for f in [ex.submit(f) for f in fs]]

    def gen(self, module, cfg=None, **kw):
        r, st = generate(module, cfg or module + '.cfg', self.work, **kw)
        if not r:
            raise CheckError('generator %s produced nothing' % module)
        self.gens.append(dict(st, behaviours=len(r)))
        return r

    def conform(self, exe, module, scenarios, tag='t', env=None, weight=None, jobs=None, confirm=True, tenv=None):
        """Run scenarios against the real code and validate the recorded traces against spec/<module>.tla."""
        if not scenarios:
            raise CheckError('no scenarios')
        items = list(enumerate(scenarios))
        jobs = jobs or min(NPROC, max(1, len(items) // 4 + 1))
        # heavier first, round robin
        items.sort(key=lambda t: -sum(len(o) for o in t[1].ops))
        chunks = [items[k::jobs] for k in range(jobs)]
        chunks = [sorted(c, key=lambda t: t[0]) for c in chunks if c]

        def one(kc):
            k, c = kc
            tp, lines = run_driver(exe, c, self.work, '%s%d' % (tag, k), env=env)
            self._check_trace(lines, c)
            rej, st = validate(module, tp, len(lines), self.work, env=tenv)
            return lines, rej, st
        with ThreadPoolExecutor(len(chunks)) as ex:
            results = list(ex.map(one, enumerate(chunks)))
        self.nscen += len(items)
        for s in scenarios:
            self.sources[s.src] = self.sources.get(s.src, 0) + 1
        for (lines, rej, st), c in zip(results, chunks):
            self.nlines += len(lines)
            self.tstates += st[1]
            self.ttrans += st[0]
            acc = None
            for l in lines:
                ev = json.loads(l)
                key = ev['e']
                if isinstance(ev.get('st'), int):
                    key += ':%d' % ev['st']
                self.events[key] = self.events.get(key, 0) + 1
                if ev['e'] == 'Reset':
                    if acc is not None:
                        self.distinct.add(acc.hexdigest())
                    acc = hashlib.md5()
                elif acc is not None:
                    acc.update(l.encode())
            if acc is not None:
                self.distinct.add(acc.hexdigest())
            for ln in sorted(rej):
                k = ln - 1
                while json.loads(lines[k])['e'] != 'Reset':
                    k -= 1
                sc = json.loads(lines[k])['sc']
                self._rejected(exe, module, scenarios[sc], sc, json.loads(lines[ln - 1]), rej[ln], tag, env, confirm, tenv)
        if len(self.samples) < 3:
            lines = results[0][0]
            end = min([i for i in range(1, len(lines)) if '"e":"Reset"' in lines[i]] + [len(lines)])
            self.samples.append(' '.join(x[:400] for x in lines[:end])[:1500])
        return results

    def _check_trace(self, lines, c):
        n = sum(1 for l in lines if '"e":"Reset"' in l)
        if n != len(c):
            raise CheckError('driver recorded %d of %d scenarios' % (n, len(c)))

    def _rejected(self, exe, module, scen, sc, ev, state, tag, env, confirm, tenv=None):
        if len(self.violations) >= 3:
            self.violations.append(None)
            return
        if confirm:
            tp, lines = run_driver(exe, [(0, scen)], self.work, 'confirm', env=env)
            rej, _ = validate(module, tp, len(lines), self.work, env=tenv)
            if not rej:
                self.notes.append('a rejection of scenario %s did not repeat and was not reported' % scen.name)
                return
            ev = json.loads(lines[min(rej) - 1])
            state = rej[min(rej)]
        rp = os.path.join(EVID, 'replay-%s-%d.txt' % (self.prop, len(self.violations)))
        os.makedirs(EVID, exist_ok=True)
        with open(rp, 'w') as f:
            f.write('# property %s, spec module %s, scenario %s (%s)\n' % (self.prop, module, scen.name, scen.src))
            f.write('# rejected event: %s\n' % json.dumps(ev)[:3000])
            f.write('# specification states before it: %s\n' % state[:3000])
            f.write('# driver script (run: %s <script> <trace>):\n' % os.path.basename(exe))
            f.write(scen.text(0))
        self.violations.append((scen.name, rp, ev))

    def violation(self, name, text):
        rp = os.path.join(EVID, 'replay-%s-%d.txt' % (self.prop, len(self.violations)))
        os.makedirs(EVID, exist_ok=True)
        open(rp, 'w').write(text)
        self.violations.append((name, rp, {'e': name}))

    def corruption_selftest(self, exe, module, scenarios, n=40, fields=None, env=None, tenv=None):
        """Bind check: corrupt one recorded observation per scenario; TLC must reject it. Returns (rejected, tried)."""
        rng = self.rng('corrupt')
        pick = rng.sample(scenarios, min(n, len(scenarios)))
        tp, lines = run_driver(exe, list(enumerate(pick)), self.work, 'corr', env=env)
        groups, cur = [], None
        for l in lines:
            if '"e":"Reset"' in l:
                cur = []
                groups.append(cur)
            cur.append(json.loads(l))
        tried = 0
        out = []
        for g in groups:
            cand = []
            for i, ev in enumerate(g):
                for k, v in ev.items():
                    if k in ('e', 'sc') or ev['e'] == 'Reset' or (fields and k not in fields):
                        continue
                    cand.append((i, k))
            if cand:
                i, k = rng.choice(cand)
                v = g[i][k]
                if isinstance(v, bool):
                    g[i][k] = not v
                elif isinstance(v, int):
                    g[i][k] = v + 1
                elif isinstance(v, str):
                    g[i][k] = v + 'x'
                elif isinstance(v, list):
                    g[i][k] = v + [7] if (not v or isinstance(v[0], int)) else v[:-1]
                tried += 1
            out += [json.dumps(e) for e in g]
        p = os.path.join(self.work, 'corr2.ndjson')
        open(p, 'w').write('\n'.join(out) + '\n')
        rej, _ = validate(module, p, len(out), self.work, env=tenv)
        self.selftest = dict(corrupted_traces=tried, rejected=len(rej))

    def finish(self):
        self.join()
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking')
        ms = sum(m['distinct'] for m in self.models) + sum(m['distinct'] for m in self.gens)
        mt = sum(m['generated'] for m in self.models) + sum(m['generated'] for m in self.gens)
        ev['coverage'] = dict(
            states=ms, transitions=mt,
            traces_validated_against_impl=self.nscen, trace_events=self.nlines, distinct_traces=len(self.distinct),
            trace_spec_states=self.tstates,
            scenario_sources=self.sources, events=dict(sorted(self.events.items())),
            models=self.models, generators=self.gens, samples=self.samples or ['none'],
            notes=self.notes)
        if self.selftest:
            ev['coverage']['binding_selftest'] = self.selftest
        ev['wall_s'] = round(time.time() - self.t0, 2)
        ev['violations'] = len(self.violations)
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for v in self.violations:
            if v:
                print('rejected: scenario %s, event %s' % (v[0], json.dumps(v[2])[:600]))
                print('VIOLATION property=%s replay=%s' % (self.prop, v[1]))
        print('%s %s: %d model states, %d traces (%d events) validated, %d violations, %.1fs' % (
            self.prop, self.tier, ms, self.nscen, self.nlines, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0
