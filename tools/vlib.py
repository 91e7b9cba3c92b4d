"""Plumbing shared by the checks: building the code under test, running the harness, running TLC, evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, '.build')
BIN = os.path.join(BUILD, 'debug')
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
ZONE = 'XST-5:30'          # the time zone of all runs: nothing may depend on it
NCPU = min(8, os.cpu_count() or 1)
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class ToolError(Exception):
    """The machinery failed: no verdict."""


# ---------------------------------------------------------------- building

def _env():
    e = dict(os.environ)
    e.update(HOME='/root', RUSTUP_TOOLCHAIN='1.81', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
             CARGO_TARGET_DIR=BUILD, CARGO_INCREMENTAL='0', CARGO_PROFILE_DEV_OPT_LEVEL='1',
             CARGO_PROFILE_DEV_DEBUG='0', CARGO_PROFILE_DEV_OVERFLOW_CHECKS='true',
             CARGO_PROFILE_DEV_DEBUG_ASSERTIONS='false', RUSTC_WRAPPER='')
    e['PATH'] = '/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin'
    e.pop('RUSTFLAGS', None)
    return e


def _source_hash():
    h = hashlib.sha256()
    for root in sorted(['atsc', 'vsri', 'wavbrro', 'csv-compressor', 'tools', 'Cargo.toml', 'Cargo.lock']):
        p = os.path.join(REPO, root)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, ds, fs in os.walk(p) for f in fs
            if f.endswith(('.rs', '.toml', '.lock')) and '/target/' not in d)
        for f in files:
            h.update(f.encode())
            h.update(open(f, 'rb').read())
    for f in ('harness/src/main.rs', 'harness/Cargo.toml'):
        h.update(open(os.path.join(VERIF, f), 'rb').read())
    return h.hexdigest()


def started(p):
    """the status of a command, which was started at all"""
    if p.returncode in (126, 127):
        raise ToolError('could not be started: %s' % p.args)
    return p.returncode


def build(binaries=False):
    """Builds the harness (and the commands) from /repo's working tree. The sources are compared by content:
    modification times mean nothing in a copy."""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    stamp = os.path.join(BUILD, 'source.sha256')
    want = _source_hash()
    have = open(stamp).read().strip() if os.path.exists(stamp) else ''
    if have != want:
        if os.path.exists(stamp):
            os.remove(stamp)
        fp = os.path.join(BIN, '.fingerprint')
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if re.match(r'(atsc|vsri|wavbrro|csv-compressor|csv_compressor|tools|vh)-[0-9a-f]+$', d):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        for s in ('.h', '.b'):
            if os.path.exists(stamp + s):
                os.remove(stamp + s)
    jobs = [('.h', ['cargo', 'build', '--offline', '--manifest-path', os.path.join(VERIF, 'harness/Cargo.toml')])]
    if binaries:
        jobs.append(('.b', ['cargo', 'build', '--offline', '--manifest-path', os.path.join(REPO, 'Cargo.toml'),
                            '-p', 'atsc', '-p', 'csv-compressor', '-p', 'tools', '--bins']))
    lock = os.path.join(VERIF, 'harness/Cargo.lock')
    saved = open(lock, 'rb').read() if os.path.exists(lock) else None
    for s, cmd in jobs:
        if os.path.exists(stamp + s) and open(stamp + s).read() == want:
            continue
        r = subprocess.run(cmd, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=VERIF)
        if r.returncode != 0:
            raise ToolError('build failed:\n' + r.stdout[-4000:])
        with open(stamp + s, 'w') as f:
            f.write(want)
    if saved is not None and open(lock, 'rb').read() != saved:
        open(lock, 'wb').write(saved)
    with open(stamp, 'w') as f:
        f.write(want)
    return time.time() - t0


# ---------------------------------------------------------------- harness

def _run_chunk(cases, per_case):
    """Runs cases in one harness process; a case that kills it or hangs is reported as such, the rest goes on in a
    new process."""
    out, i = [], 0
    while i < len(cases):
        p = subprocess.Popen(['prlimit', '--as=%d' % (3 << 30), os.path.join(BIN, 'vh')], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL, text=True, bufsize=1 << 16, env=dict(os.environ, TZ=ZONE))
        batch = cases[i:]

        def feed():
            try:
                for c in batch:
                    p.stdin.write(json.dumps(c) + '\n')
                p.stdin.close()
            except (BrokenPipeError, OSError):
                pass
        th = threading.Thread(target=feed, daemon=True)
        th.start()
        hung = [False]
        got = 0
        while got < len(batch):
            timer = threading.Timer(per_case, lambda: (hung.__setitem__(0, True), p.kill()))
            timer.start()
            line = p.stdout.readline()
            timer.cancel()
            if not line:
                break
            out.append(json.loads(line))
            got += 1
        p.stdout.close()
        p.kill()
        p.wait()
        th.join()
        i += got
        if got < len(batch):
            out.append({'died': 'hang' if hung[0] else 'abort'})
            i += 1
    return out


def harness(cases, per_case=60.0):
    if not cases:
        return []
    n = min(NCPU, max(1, len(cases) // 4))
    parts = [cases[k::n] for k in range(n)]
    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda c: _run_chunk(c, per_case), parts))
    out = [None] * len(cases)
    for k in range(n):
        for j, r in enumerate(res[k]):
            out[k + j * n] = r
    return out


# ---------------------------------------------------------------- TLC

class Tlc:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        self.prints = []
        for line in out.splitlines():
            if line.startswith('"@') and line.endswith('"'):
                self.prints.append(json.loads(json.loads(line)[1:]))
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r'depth of the complete state graph search is (\d+)', out)
        self.depth = int(m.group(1)) if m else 0
        self.ok = rc == 0 and 'No error has been found' in out


def tlc(module, cfg, env=None, workers=None, timeout=800, heap='6g', extra=(), consts=None):
    """Runs TLC on spec/<module>.tla with spec/<cfg>.cfg (or the text of a configuration)."""
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='tlc-')
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla') or f.endswith('.json'):
                os.symlink(os.path.join(SPEC, f), os.path.join(work, f))
        if '\n' in cfg:
            text = cfg
        else:
            text = open(os.path.join(SPEC, cfg + '.cfg')).read()
        if consts:
            for k, v in consts.items():
                text, n = re.subn(r'(?m)^(\s*%s\s*=).*$' % re.escape(k), lambda m: '%s %s' % (m.group(1), v), text)
                if n != 1:
                    raise ToolError('constant %s not in %s' % (k, cfg))
        open(os.path.join(work, 'run.cfg'), 'w').write(text)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-XX:TieredStopAtLevel=4', '-cp', JAR, 'tlc2.TLC',
               '-workers', str(workers or NCPU), '-deadlock', '-noGenerateSpecTE', '-metadir', os.path.join(work, 'meta'),
               '-config', 'run.cfg', *extra, module + '.tla']
        r = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
        return Tlc(r.stdout, r.returncode, time.time() - t0)
    except subprocess.TimeoutExpired as x:
        raise ToolError('TLC timed out on %s' % module)
    finally:
        shutil.rmtree(work, ignore_errors=True)


# ---------------------------------------------------------------- verdicts

class Check:
    """Collects what a check of one property explored, and its verdict."""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.distinct = set()
        self.exhaustive = []
        self.runs = []
        self.samples = []
        self.violations = []
        self.known = []
        self.notes = []
        self.dir = tempfile.mkdtemp(prefix='check-%s-' % prop)
        self.build_s = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # --- specification side
    def spec(self, module, cfg, **kw):
        """The specification itself must satisfy its invariants: a failure here is an error of the machinery, since the
        specification does not depend on the code."""
        r = tlc(module, cfg, **kw)
        if not r.ok:
            raise ToolError('TLC on %s/%s:\n%s' % (module, cfg if '\n' not in cfg else 'cfg', r.out[-3000:]))
        self.states += r.distinct
        self.transitions += max(0, r.generated - 1)
        self.runs.append({'module': module, 'distinct_states': r.distinct, 'generated': r.generated, 'depth': r.depth,
                          'emitted': len(r.prints), 'wall_s': round(r.wall, 2)})
        return r

    # --- code -> specification
    def validate(self, module, events, what, consts=None, **kw):
        """TLC validates recorded events (or histories); rejected ones are violations. Each event is a dict with the
        recorded values and 'case' (how to reproduce it, not shown to TLC)."""
        if not events:
            return []
        path = os.path.join(self.dir, '%s-%d.json' % (module, len(self.runs)))
        with open(path, 'w') as f:
            json.dump([{k: v for k, v in ev.items() if k != 'case'} for ev in events], f)
        consts = dict(consts or {})
        if 'Prop' in open(os.path.join(SPEC, module + '.cfg')).read():
            consts['Prop'] = '"%s"' % self.prop
        r = tlc(module, module, env={'TRACE': path}, consts=consts, **kw)
        if not r.ok:
            raise ToolError('TLC could not validate the trace with %s:\n%s' % (module, r.out[-3000:]))
        if r.distinct < len(events):
            raise ToolError('%s judged %d states for %d events' % (module, r.distinct, len(events)))
        self.traces += len(events)
        self.states += r.distinct
        self.transitions += max(0, r.generated - len(events))
        for ev in events:
            self.distinct.add(finding_key(self.prop, ev))
        self.runs.append({'module': module, 'trace': what, 'events': len(events), 'states': r.distinct,
                          'wall_s': round(r.wall, 2)})
        rejected = [p for p in r.prints if 'reject' in p]
        for p in rejected:
            ev = events[p['reject'] - 1]
            self.violation('%s: event %d rejected by %s: %s' % (what, p['reject'], module, p.get('why', '')), ev)
        self.sample(what, events[len(events) // 2])
        os.remove(path)
        return rejected

    def sample(self, what, obj):
        def short(o, d=0):
            if isinstance(o, dict):
                return {k: short(v, d + 1) for k, v in o.items()}
            if isinstance(o, list):
                return [short(v, d + 1) for v in o[:6]] + (['... %d in all' % len(o)] if len(o) > 6 else [])
            if isinstance(o, str) and len(o) > 200:
                return o[:200] + '...'
            return o
        if len(self.samples) < 6:
            self.samples.append({'what': what, 'item': short(obj)})

    def violation(self, text, replay, sig=None):
        key = finding_key(self.prop, replay)
        for k in load_known():
            if k['property'] == self.prop and k['key'] == key:
                if k not in self.known:
                    self.known.append(k)
                return
        self.violations.append((text, replay))

    def finish(self, rc_known=0):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'distinct_nontrivial': len(self.distinct),
               'rule': 'a trace is one recorded call, session or history of the code, validated by TLC against the specification; '
                       'distinct_nontrivial counts those that differ in what was passed in',
               'samples': self.samples, 'runs': self.runs, 'enumerated_completely': self.exhaustive, 'notes': self.notes}
        ev = evidence(self, cov)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        if self.violations:
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            path = os.path.join(VERIF, 'replays', '%s.json' % self.prop)
            with open(path, 'w') as f:
                json.dump([{'what': t, 'replay': r} for t, r in self.violations[:20]], f, indent=1)
            for t, r in self.violations[:5]:
                print('  ' + t[:600])
            print('%d violation(s)' % len(self.violations))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        print('%s: held. states=%d transitions=%d traces=%d wall=%.1fs' % (
            self.prop, self.states, self.transitions, self.traces, time.time() - self.t0))
        return 0


def finding_key(prop, replay):
    case = replay.get('case', replay) if isinstance(replay, dict) else replay
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


_known = None


def load_known():
    """known_findings.txt: lines 'known: property=<id> key=<key> <what fails>' and 'fixed: ...' (which suppress
    nothing)."""
    global _known
    if _known is None:
        _known = []
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
                if m:
                    _known.append({'property': m.group(1), 'key': m.group(2), 'what': m.group(3)})
    return _known


def evidence(c, cov):
    return {'property': c.prop, 'tier': TIER, 'seed': SEED, 'level': 'model_checking', 'coverage': cov,
            'violations': len(c.violations), 'wall_s': round(time.time() - c.t0, 2)}
