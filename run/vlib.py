"""Building, running TLC, evidence and outcomes, shared by all checks."""
import fcntl, glob, hashlib, json, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
WORK = os.path.join(VERIF, 'work')
BUILD = os.path.join(VERIF, '.build')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = os.cpu_count() or 8


class CheckError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def _files(root, pats):
    out = []
    for d, dirs, fs in os.walk(root):
        dirs[:] = [x for x in dirs if x not in ('.git', 'build', 'third_party')]
        for f in fs:
            if f.endswith(pats):
                out.append(os.path.join(d, f))
    return sorted(out)


def tree_hash():
    h = hashlib.sha256()
    for f in _files(REPO, ('.cpp', '.h', '.hpp', '.c', '.inc', '.def', '.h.medium')) + _files(VERIF + '/harness', ('.cpp', '.h', 'Makefile', '.mk')):
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def build(target, defs=''):
    """make TARGET from harness/Makefile into a directory keyed by the sources."""
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + '/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        hh = tree_hash()
        d = os.path.join(BUILD, hh)
        for o in glob.glob(BUILD + '/*'):
            if os.path.isdir(o) and o != d:
                shutil.rmtree(o, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        p = subprocess.run(['make', '-s', '-j%d' % NCPU, '-f', VERIF + '/harness/Makefile',
                            'B=' + d, 'H=' + VERIF + '/harness', 'REPO=' + REPO, d + '/' + target],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise CheckError('build of %s failed:\n%s' % (target, p.stdout[-4000:]))
        return os.path.join(d, target)


def run(cmd, timeout, env=None, cwd=None, ok=(0,)):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, env=e, cwd=cwd, errors='replace')
    except subprocess.TimeoutExpired:
        raise CheckError('timeout: %s' % ' '.join(cmd))
    if ok is not None and p.returncode not in ok:
        raise CheckError('%s exited %d:\n%s' % (' '.join(cmd), p.returncode, p.stdout[-3000:]))
    return p


def run_crashable(cmd, timeout, env=None, cwd=None):
    """None if cmd exits 0, otherwise a text saying how it failed."""
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd)
    except subprocess.TimeoutExpired:
        return 'no end within %d s' % timeout
    if p.returncode == 0:
        return None
    return 'exit %d: %s' % (p.returncode, p.stdout.decode(errors='replace')[-600:])


def scratch(name):
    d = os.path.join(WORK, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


class TlcResult:
    pass


def tlc(module, cfg=None, env=None, timeout=600, workers=None, heap='6g', extra=(), dirname=None, trace=False):
    """Run TLC on spec/<module>.tla; returns counts and verdict, raises CheckError when TLC itself fails."""
    cfg = cfg or module + '.cfg'
    meta = os.path.join(dirname or WORK, 'tlc.%s.%d.%d' % (module, os.getpid(), random.randrange(1 << 30)))
    os.makedirs(meta)
    cmd = ['java', '-Djava.io.tmpdir=' + meta, '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap, '-cp', JAR, 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE',
           '-workers', str(workers or NCPU), '-config', cfg, *extra, module + '.tla']
    try:
        p = run(cmd, timeout, env=env, cwd=VERIF + '/spec', ok=None)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    o = p.stdout
    res = TlcResult()
    res.out = o
    mm = re.findall(r'(\d+) states generated, (\d+) distinct states found', o.replace(',', ',')) or \
        re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', o)
    if not mm and '-simulate' in extra:
        mm = [(x, x) for x in re.findall(r'(\d+) states checked', o)]
    res.generated = int(mm[-1][0].replace(',', '')) if mm else 0
    res.distinct = int(mm[-1][1].replace(',', '')) if mm else 0
    res.code = p.returncode
    # 0 ok; 12 safety violation; 11 deadlock; 13 liveness
    res.ok = p.returncode == 0
    res.violated = p.returncode in (10, 11, 12, 13)
    # 14, 75-77: an expression of the specification has no value on what was recorded
    if trace and p.returncode in (14, 75, 76, 77):
        res.violated = True
    if not res.ok and not res.violated:
        raise CheckError('TLC failed on %s (%d):\n%s' % (module, p.returncode, o[-3000:]))
    return res


def keep_replay(prop, name, text):
    d = os.path.join(WORK, 'replay')
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, '%s_%s' % (prop, name))
    with open(f, 'w') as fh:
        fh.write(text)
    return f


CHUNK = 48 << 20


def chunks(trace_file):
    """trace_file itself, or its lines in files of bounded size (a hanging core records long runs)"""
    if os.path.getsize(trace_file) <= CHUNK:
        yield trace_file
        return
    part, size, o = trace_file + '.part', 0, None
    with open(trace_file) as fh:
        for line in fh:
            if o is not None and size + len(line) > CHUNK:
                o.close()
                yield part
                o = None
            if o is None:
                o, size = open(part, 'w'), 0
            o.write(line)
            size += len(line)
    if o is not None:
        o.close()
        yield part
    if os.path.exists(part):
        os.remove(part)


def trace_check(prop, module, trace_file, rerecord, cfg=None, timeout=600, heap='8g', desc='', env=None, chunk=None):
    """All lines of trace_file are initial states of `module`.  On rejection the
    offending run is recorded again by rerecord(id) -> file and must be rejected
    again before a violation is reported.  Returns the TLC result."""
    total = None
    for part in chunks(trace_file):
        res = trace_part(prop, module, part, rerecord, cfg, timeout, heap, desc, env)
        if total is not None:
            res.generated += total.generated
            res.distinct += total.distinct
        total = res
    return total


def trace_part(prop, module, trace_file, rerecord, cfg, timeout, heap, desc, env):
    e = {'TRACE': trace_file}
    e.update(env or {})
    res = tlc(module, cfg, env=e, timeout=timeout, heap=heap, trace=True)
    if res.ok:
        return res
    mm = re.findall(r'/\\ tid = (\d+)', res.out)
    if not mm:
        raise CheckError('TLC rejected but no trace number found:\n' + res.out[-3000:])
    tid = int(mm[-1])
    with open(trace_file) as fh:
        for k, line in enumerate(fh, 1):
            if k == tid:
                break
    ident = json.loads(line)['id']
    bad = re.findall(r'bad = (<<.*?>>)', res.out, re.S)
    for attempt in range(3):
        again = rerecord(ident)
        e['TRACE'] = again
        res2 = tlc(module, cfg, env=e, timeout=timeout, heap=heap, workers=1, trace=True)
        if not res2.ok:
            break
    else:
        # the code does not do the same thing every time: judge what it did
        again = trace_file + '.one'
        with open(again, 'w') as fh:
            fh.write(line)
        e['TRACE'] = again
        res2 = tlc(module, cfg, env=e, timeout=timeout, heap=heap, workers=1, trace=True)
        if res2.ok:
            raise CheckError('run %s was rejected by %s, and accepted alone' % (ident, module))
        desc += ' (not on every recording)'
    f = keep_replay(prop, '%s_%s.txt' % (module, ident),
                    'module %s, run %s %s\n%s\n' % (module, ident, desc, res2.out) + open(again).read())
    raise Violation('%s: run %s does not conform (%s)' % (module, ident, ' '.join((bad or ['?'])[-1].split())), f)


def rng_for(*what):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return random.Random('%d/%s' % (seed, '/'.join(map(str, what))))


def seed():
    return int(os.environ.get('VERIF_SEED', '1') or 1)


def known_findings(prop):
    out = []
    try:
        for line in open(VERIF + '/known_findings.txt'):
            line = line.strip()
            if line and not line.startswith('#') and not line.startswith('fixed:') and 'property=' + prop in line.split():
                out.append(line)
    except FileNotFoundError:
        pass
    return out


def finish(prop, tier, level, coverage, t0, assumptions=(), violations=()):
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    d = dict(property=prop, tier=tier, seed=seed(), level=level, coverage=coverage,
             wall_s=round(time.time() - t0, 2))
    if assumptions:
        d['assumptions'] = list(assumptions)
    if violations:
        d['violations'] = list(violations)
    tmp = VERIF + '/evidence/%s.json.tmp' % prop
    with open(tmp, 'w') as fh:
        json.dump(d, fh, indent=1)
    os.replace(tmp, VERIF + '/evidence/%s.json' % prop)
