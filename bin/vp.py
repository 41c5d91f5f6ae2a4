"""Shared machinery of the checks: build /repo, run the Java harness, run TLC, write evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
JVM = '/usr/lib/jvm/java-%d-openjdk-amd64/bin/'
TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(VERIF, 'spec')
sys.path.insert(0, os.path.join(VERIF, 'gen'))


class Broken(Exception):
    """The check itself could not run (no verdict)."""


class Slow(Broken):
    pass


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='vp-%s-' % pid)
        self.violations = []          # (what, replay record)
        self.stats = dict(states=0, transitions=0, traces_validated_against_impl=0)
        self.parts = []               # per-stage account for the evidence
        self.samples = []
        self.workers = os.cpu_count() or 4
        self.built = set()
        self.n = 0
        self.slow = None              # a run that was cut short

    def p(self, *a):
        return os.path.join(self.dir, *a)

    def quick(self):
        return self.tier == 'quick'

    def log(self, msg):
        print('[%s %6.1fs] %s' % (self.pid, time.time() - self.t0, msg), flush=True)

    # ---------------------------------------------------------------- building
    def _javac(self, out, files, cp=None, release=8):
        os.makedirs(out, exist_ok=True)
        cmd = [JVM % 21 + 'javac', '-nowarn', '-encoding', 'UTF-8', '-d', out]
        if release:
            cmd += ['--release', str(release)]
        if cp:
            cmd += ['-cp', cp]
        r = subprocess.run(cmd + files, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise Broken('javac failed:\n' + r.stdout[-3000:])

    def sources(self, root):
        out = []
        for d, _, fs in os.walk(root):
            out += [os.path.join(d, f) for f in fs if f.endswith('.java')]
        return sorted(out)

    def build(self, extra=()):
        """Compiles the library from /repo's working tree, and the harness against it."""
        if 'lib' not in self.built:
            self._javac(self.p('lib'), self.sources(os.path.join(REPO, 'src/main/java')))
            res = os.path.join(REPO, 'src/main/resources')
            if os.path.isdir(res):
                shutil.copytree(res, self.p('lib'), dirs_exist_ok=True)
            self._javac(self.p('h'), self.sources(os.path.join(VERIF, 'harness/src')), self.p('lib'))
            self.built.add('lib')
        for x in extra:
            if x not in self.built:
                self._javac(self.p('h'), self.sources(os.path.join(VERIF, 'harness', x)),
                            self.p('lib') + ':' + self.p('h'))
                self.built.add(x)

    def overrides(self):
        if 'ov' not in self.built:
            self._javac(self.p('ov'), self.sources(os.path.join(VERIF, 'override')), TLA, release=11)
            self.built.add('ov')

    # ---------------------------------------------------------------- running
    def left(self, timeout):
        """What a quick check may still spend; one that has found something does not dwell on it."""
        if not self.quick():
            return timeout
        spent = time.time() - self.t0
        if self.violations and spent > 400:
            raise Broken('enough was found')
        return max(1, min(timeout, (500 if spent < 400 else 820) - spent))

    def java(self, main, args, jdk=21, opts=(), timeout=600, stdin=None):
        cmd = [JVM % jdk + 'java', '-Xmx4g', '-XX:+UseParallelGC'] + list(opts) + \
              ['-cp', self.p('lib') + ':' + self.p('h'), main] + [str(a) for a in args]
        env = dict(os.environ, LANG='C.UTF-8', TZ='UTC')
        env.pop('JAVA_TOOL_OPTIONS', None)
        if os.path.exists(args[1] + '.stuck'):
            os.unlink(args[1] + '.stuck')
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace',
                               timeout=self.left(timeout), env=env)
        except subprocess.TimeoutExpired:
            raise Slow('%s timed out' % main)
        if r.returncode == 3 and os.path.exists(args[1] + '.stuck'):   # the library hung or broke out of the driver
            b = json.load(open(args[1] + '.stuck'))
            self.violation('%s (jdk %d): %s: %s' % (main, jdk, b.get('what'), describe(b)), b)
            raise Broken('the library did not come back')
        if r.returncode:
            raise Broken('%s failed (%d):\n%s' % (main, r.returncode, (r.stdout + r.stderr)[-3000:]))
        return r.stdout

    def tlc(self, module, cfg=None, env=None, opts=(), workers=None, timeout=800, override=True,
            allow_violation=False):
        """Runs TLC on spec/<module>.tla; returns its output and counts."""
        self.overrides()
        self.n += 1
        md = self.p('md%d' % self.n)
        cp = (self.p('ov') + ':' if override else '') + TLA
        jo = ['-Xss64m', '-Xmx12g', '-XX:+UseParallelGC', '-Dtlc2.TLC.ide=none']
        cmd = ['java'] + jo + ['-cp', cp, 'tlc2.TLC', '-workers', str(workers or self.workers),
               '-metadir', md, '-noGenerateSpecTE', '-config', (cfg or module) + '.cfg'] + list(opts) + [module + '.tla']
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=self.left(timeout), env=e)
        except subprocess.TimeoutExpired:
            raise Broken('TLC on %s timed out' % module)
        finally:
            shutil.rmtree(md, ignore_errors=True)
        out = r.stdout
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        if not m:
            m = re.search(r'(\d+) states checked', out.replace(',', ''))
            gen = dist = int(m.group(1)) if m else 0
        if r.returncode != 0 and not allow_violation:
            raise Broken('TLC on %s ended with %d:\n%s' % (module, r.returncode, out[-4000:]))
        return dict(out=out, rc=r.returncode, generated=gen, distinct=dist)

    @staticmethod
    def emitted(out):
        """Records printed by the specification with PrintT(ToJson(...))."""
        for line in out.split('\n'):
            if line.startswith('"{'):
                yield json.loads(json.loads(line.strip()))

    @staticmethod
    def emitted_raw(out):
        """The same, as JSON text."""
        seen = set()
        for line in out.split('\n'):
            if line.startswith('"{') and line not in seen:
                seen.add(line)
                yield json.loads(line.strip())

    def drive(self, main, lines, name, args=(), jdk=21, opts=(), timeout=600):
        """Replays behaviours of the specification (JSON lines) with a Java driver that writes
        the ones the implementation did not follow."""
        src, dst = self.p(name + '.h'), self.p(name + '.diff')
        n = 0
        with open(src, 'w') as f:
            for l in lines:
                if n in (0, 7) and len(self.samples) < 8 and l[:400] not in self.samples:
                    self.samples.append(l[:400])
                f.write(l + '\n')
                n += 1
        if n == 0:
            raise Broken('%s: the specification produced no behaviours' % name)
        self.java(main, [src, dst, self.seed] + list(args), jdk=jdk, opts=opts, timeout=timeout)
        os.unlink(src)
        bad = [json.loads(l) for l in open(dst)]
        for b in bad:
            self.violation('%s (jdk %d): %s' % (name, jdk, b.get('what')), b)
        self.stats['traces_validated_against_impl'] += n
        self.parts.append(dict(stage='replay', name=name, jdk=jdk, behaviours=n, rejected=len(bad)))
        self.log('replay %s on jdk %d: %d behaviours, %d rejected' % (name, jdk, n, len(bad)))
        return bad

    def expect_violation(self, module, cfg, inv):
        """A deliberately broken variant of the specification, which TLC has to reject."""
        r = self.tlc(module, cfg, allow_violation=True)
        if r['rc'] == 0 or 'Invariant %s is violated' % inv not in r['out']:
            raise Broken('%s: the broken variant was accepted' % cfg)
        self.parts.append(dict(stage='broken variant rejected', module=cfg, invariant=inv))

    def stress(self, trace, name, threads, rounds, jdk=21):
        """Runs the (validated) calls of a trace from many threads at once, on shared formatters."""
        dst = self.p(name + '.diff')
        n = int(self.java('vp.Stress', [trace, dst, self.seed, threads, rounds], jdk=jdk, timeout=1500).split()[-1])
        bad = [json.loads(l) for l in open(dst)]
        for b in bad:
            self.violation('%s: %s: %s' % (name, b.get('what'), describe(b)), b)
        self.parts.append(dict(stage='stress', name=name, calls=n, threads=threads, rounds=rounds, rejected=len(bad)))
        self.log('stress %s: %d calls x %d threads x %d rounds, %d rejected' % (name, n, threads, rounds, len(bad)))

    # ---------------------------------------------------------------- stages
    def model(self, module, cfg=None, note='', opts=(), env=None, timeout=800, workers=None):
        """Model-checks a module: its invariants are properties of the specification itself."""
        r = self.tlc(module, cfg, env=env, opts=opts, timeout=timeout, workers=workers)
        self.stats['states'] += r['distinct']
        self.stats['transitions'] += r['generated']
        self.parts.append(dict(stage='model', module=cfg or module, states=r['distinct'],
                               transitions=r['generated'], note=note))
        self.log('model %s: %d distinct states, %d generated' % (cfg or module, r['distinct'], r['generated']))
        return r

    def violation(self, what, record):
        self.violations.append((what, record))
        if len(self.violations) <= 5:
            self.log('violation: ' + what)

    def run_cases(self, cases, name, jdk=21, opts=(), mode='sinks'):
        """Executes cases on the library; returns the path of the recorded trace."""
        src, dst = self.p(name + '.cases'), self.p(name + '.trace')
        with open(src, 'w') as f:
            for c in cases:
                f.write(json.dumps(c) + '\n')
        try:
            self.java('vp.Exec', [src, dst, mode], jdk=jdk, opts=opts)
        except Slow as e:      # what was recorded so far may show why
            self.slow = str(e)
            done = open(dst, encoding='utf-8', errors='replace').read()
            with open(dst, 'w') as f:
                f.write(done[:done.rfind('\n') + 1])
        os.unlink(src)
        return dst

    def replay(self, lines, name, jdk=21, opts=(), mode='sinks', add=None, keep=False):
        """Cases (JSON text) that carry the outcome x the specification prescribes; compared in Java."""
        src, dst = self.p(name + '.cases'), self.p(name + '.diff')
        n = 0
        if not isinstance(lines, str):
            with open(src, 'w') as f:
                for l in lines:
                    if add:
                        l = l[:-1] + add + '}'
                    if n in (1, 1001) and len(self.samples) < 6:
                        self.samples.append(describe(json.loads(l)))
                    f.write(l + '\n')
                    n += 1
        else:
            src = lines
            n = sum(1 for _ in open(src))
        if n == 0:
            raise Broken('%s: the specification produced no behaviours' % name)
        try:
            self.java('vp.Exec', [src, dst, mode, 'replay'], jdk=jdk, opts=opts, timeout=3000)
        except Slow as e:
            self.slow = str(e)
        bad = [json.loads(l) for l in open(dst) if l.endswith('\n')]
        for b in bad:
            self.violation('%s (jdk %d %s): %s' % (name, jdk, ' '.join(opts), describe(b)), b)
        self.stats['traces_validated_against_impl'] += n
        self.parts.append(dict(stage='replay', name=name, jdk=jdk, behaviours=n, rejected=len(bad),
                               **({'opts': ' '.join(opts)} if opts else {})))
        self.log('replay %s on jdk %d%s: %d behaviours, %d rejected' % (name, jdk, ''.join(' ' + o for o in opts), n, len(bad)))
        if not keep:
            os.unlink(src)
        return src

    def model_replay(self, module, cfg, add=None, mode='sinks', jdk=21, note='', keep=False):
        """Model-checks, and replays every behaviour the model emitted on the library."""
        r = self.model(module, cfg, note, timeout=3000)
        return self.replay(self.emitted_raw(r['out']), cfg, add=add, mode=mode, jdk=jdk, keep=keep)

    def validate(self, trace, name, controls=True):
        """Trace validation by TLC: every recorded call must be one the specification allows."""
        lines = open(trace).read().splitlines()
        n = len(lines)
        if n == 0:
            raise Broken(name + ': empty trace')
        byid = {}
        extra = []
        if controls:        # corrupted copies that TLC has to reject
            step = max(1, n // 8)
            for i in range(0, n, step):
                ev = json.loads(lines[i])
                if ev['r']['st'] == 'done' and ev['r']['s']:
                    ev['r']['s'][-1] ^= 1
                else:
                    ev['r'] = dict(st='done', s=ev['r']['s'] + [33])
                ev['id'] = 'control%d' % i
                extra.append(ev['id'])
                lines.append(json.dumps(ev))
        path = self.p(name + '.ndjson')
        with open(path, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        r = self.tlc('TracePrintf', env=dict(TRACE=path))
        os.unlink(path)
        want = len(lines) + 64
        if r['distinct'] != want:
            raise Broken('%s: TLC visited %d states, expected %d\n%s' % (name, r['distinct'], want, r['out'][-2000:]))
        flat = re.sub(r'\s+', ' ', r['out'])
        rejected = re.findall(r'<< ?"REJECT", ("[^"]*"|-?\d+)', flat)
        rejected = [x.strip('"') for x in rejected]
        missing = [x for x in extra if x not in rejected]
        if missing:
            raise Broken('%s: corrupted control events were accepted: %s' % (name, missing))
        real = [x for x in rejected if not x.startswith('control')]
        if real:
            byid = {}
            for l in lines[:n]:
                ev = json.loads(l)
                byid[str(ev['id'])] = ev
            for x in real:
                self.violation('%s: %s' % (name, describe(byid[x])), byid[x])
        self.stats['states'] += r['distinct']
        self.stats['transitions'] += n
        self.stats['traces_validated_against_impl'] += n
        self.parts.append(dict(stage='trace', name=name, events=n, rejected=len(real), controls_rejected=len(extra)))
        for i in (0, n // 2):
            if len(self.samples) < 8:
                self.samples.append(describe(json.loads(lines[i])))
        self.log('trace %s: %d calls validated, %d rejected' % (name, n, len(real)))
        return real

    def check_cases(self, cases, name, **k):
        return self.validate(self.run_cases(cases, name, **k), name)

    # ---------------------------------------------------------------- the end
    def finish(self, level, assumptions=(), extra=None):
        if self.slow and not self.violations:
            raise Broken(self.slow)
        known = known_findings(self.pid)
        fresh, seen = [], set()
        for what, rec in self.violations:
            k = match_known(known, what, rec)
            if k is None:
                fresh.append((what, rec))
            else:
                seen.add(k)
        for k in known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        cov = dict(self.stats)
        cov['samples'] = self.samples or ['-']
        cov['stages'] = self.parts
        cov.update(extra or {})
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 2), assumptions=list(assumptions),
                  violations=len(fresh))
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        rc = 0
        if fresh:
            path = os.path.join(d, self.pid + '.replay.json')
            with open(path, 'w') as f:
                for w, r in fresh[:200]:
                    f.write(json.dumps(dict(what=w, case=r)) + '\n')
            print('VIOLATION property=%s replay=%s' % (self.pid, path), flush=True)
            rc = 1
        self.log('done: %s' % ('%d violation(s)' % len(fresh) if fresh else 'held'))
        return rc

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def text(units):
    return ''.join(chr(c) if 32 <= c < 127 else '\\u%04x' % c for c in units[:120]) + ('...' if len(units) > 120 else '')


def describe_arg(a):
    t = a.get('t')
    n = lambda k: sum(d * 10000 ** i for i, d in enumerate(a[k])) * (-1 if a.get('neg') else 1)
    try:
        if t in ('byte', 'short', 'int', 'long', 'bigint', 'date', 'cal', 'num', 'inst'):
            return '%s:%d%s' % (t, n('m'), ' (primitive)' if a.get('prim') == 1 else '')
        if t == 'bigdec':
            return 'bigdec:%dE%d' % (n('m'), -a['sc'])
        if t in ('float', 'double'):
            if a['k'] != 'fin':
                return '%s:%s%s' % (t, '-' if a['neg'] else '', a['k'])
            import math
            c = sum(d * 10000 ** i for i, d in enumerate(a['c']))
            v = math.ldexp(c, a['q'])
            return '%s:%r' % (t, -v if a['neg'] else v)
        if t in ('str', 'obj'):
            return '%s:"%s"' % (t, text(a['s']))
        if t in ('bool', 'char'):
            return '%s:%d' % (t, a['v'])
        if t in ('odt', 'zdt', 'ldt', 'ld', 'lt'):
            return '%s:%04d-%02d-%02dT%02d:%02d:%02d.%09d%+d' % (t, a['y'], a['mo'], a['d'], a['h'], a['mi'], a['s'], a['ns'], a['off'])
        return str(t)
    except Exception:
        return json.dumps(a)[:200]


def describe(c):
    if not isinstance(c, dict) or 'f' not in c:
        return json.dumps(c)[:400]
    s = 'format "%s" (%s)' % (text(c['f']), ', '.join(describe_arg(a) for a in c.get('a', [])[:8]))
    if 'r' in c:
        s += ' -> %s "%s"' % (c['r']['st'], text(c['r']['s']))
    if 'x' in c:
        s += ' specified %s "%s"' % (c['x']['st'], text(c['x']['s']))
    return s


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                out.append(dict(key=m.group(2), what=m.group(3).strip()))
    return out


def match_known(known, what, rec):
    for i, k in enumerate(known):
        if isinstance(rec, dict) and rec.get('key') == k['key']:
            return i
    return None
