"""Common part of the checks: build from /repo, run a driver, let TLC judge its trace."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time, selectors
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARN = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, 'build')
NCPU = os.cpu_count() or 4
TLC_LIMIT = 800 if os.environ.get('VERIF_TIER', 'quick') == 'quick' else 5000     # seconds


class CheckError(Exception):
    """The check could not be carried out (exit status 2)."""


# ------------------------------------------------------------------ build
SAN = ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment,nonnull-attribute,null,pointer-overflow',
       '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-DNDEBUG']
EXE = ['-O2', '-DNDEBUG']
BASEFLAGS = ['-std=c++17', '-w', '-I', REPO + '/src', '-I', HARN]


def lib_sources():
    """The sources that Jamroot puts in the library (they all are, if it cannot be read)."""
    src = []
    try:
        t = open(REPO + '/Jamroot').read()
        m = re.search(r'create_ppocr_rule\n((?:\s+src/\S+\n)+)', t)
        src = [s for s in m.group(1).split()]
    except Exception:
        pass
    src = [s for s in src if os.path.exists(os.path.join(REPO, s))]
    if not src:
        for d, _, fs in os.walk(REPO + '/src'):
            src += [os.path.relpath(os.path.join(d, f), REPO) for f in fs if f.endswith('.cpp')]
        src = [s for s in src if not re.search(r'unique_sort_definition|read_definitions_file', s)]
    return sorted(src)


def tree_hash(extra):
    h = hashlib.sha256()
    files = []
    for top in (REPO + '/src', REPO + '/main', HARN):
        for d, _, fs in os.walk(top):
            files += [os.path.join(d, f) for f in fs]
    for f in sorted(files + [REPO + '/Jamroot']):
        h.update(f.encode() + b'\0')
        try:
            h.update(open(f, 'rb').read())
        except OSError:
            pass
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def _cc(args):
    p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, ' '.join(args[-4:]) + '\n' + p.stdout[-3000:]


def _compile(pairs, flags):
    with ThreadPoolExecutor(NCPU) as ex:
        for rc, out in ex.map(lambda p: _cc(['g++'] + BASEFLAGS + flags + ['-c', p[0], '-o', p[1]]), pairs):
            if rc:
                raise CheckError('compilation failed: ' + out)


def build(targets):
    """targets: names of drivers (drv_*), of drivers built as the programs are (drv_*.plain), or of programs
    of /repo/main. -> {name: path}"""
    out = {}
    for kind, flags in (('drv', SAN), ('exe', EXE)):
        names = [t for t in targets if (t.startswith('drv_') and not t.endswith('.plain')) == (kind == 'drv')]
        if not names:
            continue
        key = tree_hash(flags)
        d = os.path.join(BUILD, kind + '-' + key)
        os.makedirs(d + '/o', exist_ok=True)
        lib = d + '/lib.a'
        pairs = []
        objs = []
        for s in lib_sources():
            o = d + '/o/' + s.replace('/', '_') + '.o'
            objs.append(o)
            if not os.path.exists(lib):
                pairs.append((os.path.join(REPO, s), o))
        mains = {}
        for n in names:
            src = HARN + '/' + n.split('.')[0] + '.cpp' if n.startswith('drv_') else REPO + '/main/' + n + '.cpp'
            out[n] = d + '/' + n
            if not os.path.exists(out[n]):
                mains[n] = d + '/o/main_' + n + '.o'
                pairs.insert(0, (src, mains[n]))
        _compile(pairs, flags)
        if not os.path.exists(lib):
            rc, o = _cc(['ar', 'rcs', lib + '.tmp'] + objs)
            if rc:
                raise CheckError('ar failed: ' + o)
            os.rename(lib + '.tmp', lib)
        for n, o in mains.items():
            rc, txt = _cc(['g++'] + flags + [o, lib, '-o', out[n] + '.tmp'])
            if rc:
                raise CheckError('link failed: ' + txt)
            os.rename(out[n] + '.tmp', out[n])
    _prune()
    return out


def _prune(keep=12):
    try:
        ds = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD)), key=os.path.getmtime)
        for x in ds[:-keep]:
            shutil.rmtree(x, ignore_errors=True)
    except OSError:
        pass


# ------------------------------------------------------------------ drivers
ENV = dict(os.environ,
           ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:max_allocation_size_mb=8192:'
                        'allocator_may_return_null=0:handle_abort=1:hard_rss_limit_mb=6000',
           UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1:exitcode=98',
           LC_ALL='C')


# a program of the repository which goes on taking memory does not take that of the machine
PLAIN = ['prlimit', '--as=8589934592'] if shutil.which('prlimit') else []
LIMIT = ['prlimit', '--as=4294967296', '--nofile=256'] if shutil.which('prlimit') else []


def run_driver(exe, cases, timeout=20, jobs=1, limit=()):
    """cases: list of (id, 'op args...'). -> {id: (status, result)}; status ok|exc|crash|hang.

    A driver which dies is started again on the cases after the one that killed it."""
    if jobs > 1 and len(cases) > 50:
        n = (len(cases) + jobs - 1) // jobs
        parts = [cases[i:i + n] for i in range(0, len(cases), n)]
        res = {}
        with ThreadPoolExecutor(jobs) as ex:
            for r in ex.map(lambda c: run_driver(exe, c, timeout, 1, limit), parts):
                res.update(r)
        return res
    res = {}
    todo = list(cases)
    restarts = hangs = 0
    while todo:
        text = ''.join('%s %s\n' % c for c in todo).encode()
        with tempfile.TemporaryFile() as inp, tempfile.TemporaryFile() as err:
            inp.write(text)
            inp.seek(0)
            p = subprocess.Popen([*limit, exe], stdin=inp, stdout=subprocess.PIPE, stderr=err, env=ENV)
            cur = None
            hung = False
            buf = b''
            sel = selectors.DefaultSelector()
            sel.register(p.stdout, selectors.EVENT_READ)
            while True:
                if not sel.select(timeout):
                    hung = True
                    p.kill()
                    break
                chunk = os.read(p.stdout.fileno(), 1 << 16)
                if not chunk:
                    break
                buf += chunk
                lines = buf.split(b'\n')
                buf = lines.pop()
                for ln in lines:
                    f = ln.decode().split(' ', 2)
                    if f[1] == 'begin':
                        cur = f[0]
                    elif f[1] == 'ok':
                        res[f[0]] = ('ok', json.loads(f[2]) if len(f) > 2 and f[2] else None)
                        cur = None
                    elif f[1] == 'exc':
                        res[f[0]] = ('exc', None)
                        cur = None
            sel.close()
            p.stdout.close()
            rc = p.wait()
            err.seek(0)
            msg = err.read().decode(errors='replace')
        if rc == 3:
            raise CheckError('driver: ' + msg[-500:])
        done = len([1 for c in todo if str(c[0]) in res])
        rest = [c for c in todo if str(c[0]) not in res]
        if not rest:
            break
        if cur is None:
            if rc != 0 and done == 0:
                raise CheckError('driver does not start: rc=%s %s' % (rc, msg[-800:]))
            if rc == 0:
                raise CheckError('driver stopped early')
            cur = str(rest[0][0])
        m = re.search(r'(ERROR: AddressSanitizer: \S+|runtime error: [^\n]*|terminate called[^\n]*)', msg)
        res[cur] = ('hang' if hung else 'crash', m.group(1) if m else 'rc=%s' % rc)
        todo = [c for c in rest if str(c[0]) != cur]
        restarts += 1
        hangs += hung
        if restarts > 200 or hangs >= 3:      # enough of them are known
            for c in todo:
                res[str(c[0])] = ('skipped', None)
            break
    return res


# ------------------------------------------------------------------ TLC
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def tlc(module, cfg=None, env=None, workers=NCPU, timeout=TLC_LIMIT, extra=(), heap='6g', cwd=SPEC):
    """Runs TLC; -> (rc, output, stats dict)."""
    meta = tempfile.mkdtemp(prefix='tlc-')
    try:
        cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap, '-cp', JAR, 'tlc2.TLC', '-metadir', meta,
               '-workers', str(workers), '-noGenerateSpecTE', '-deadlock',
               '-config', (cfg or module + '.cfg')] + list(extra) + [module + '.tla']
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            raise CheckError('TLC: time limit on %s' % module)
        o = p.stdout
        m = re.search(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', o)
        st = {'generated': int(m.group(1)), 'distinct': int(m.group(2)), 'left': int(m.group(3))} if m else {}
        return p.returncode, o, st
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def model_check(module, cfg=None, env=None, timeout=TLC_LIMIT, **kw):
    """Exhaustive check of a model; an error in it is an error of the check, not a violation."""
    rc, o, st = tlc(module, cfg, env, timeout=timeout, **kw)
    if rc != 0 or 'No error has been found' not in o or st.get('left', 1) != 0:
        raise CheckError('model %s (%s) does not hold:\n%s' % (module, cfg, o[-3000:]))
    return st


def validate(module, events, shards=None, timeout=TLC_LIMIT, cfg='Trace.cfg', env=None):
    """Lets TLC replay events (list of sequences of events: each is a run of the system) against
    the specification. -> (list of rejected event ids, stats).

    An event which the specification cannot even evaluate (the real code returned something
    which is not of the right form) is rejected too: TLC names it, its run is set aside and the
    others are replayed again."""
    runs = list(events)
    aside = []
    before = []
    for _ in range(6):
        bad, st, broken = _validate(module, runs, shards, timeout, cfg, env)
        if broken is None:
            return sorted(set(bad + aside)), st
        aside.append(broken)
        before += bad
        runs = [r for r in runs if all(e['id'] != broken for e in r)]
        if not runs:
            break
    return sorted(set(aside + before)), {'distinct': 0, 'generated': 0}


def _validate(module, runs, shards, timeout, cfg, env):
    total = sum(len(r) for r in runs)
    if total == 0:
        raise CheckError('nothing to validate')
    shards = min(shards or NCPU * 6, len(runs))
    parts = [[] for _ in range(shards)]
    order = sorted(range(len(runs)), key=lambda i: -len(json.dumps(runs[i])) if len(runs) < 20000 else 0)
    for n, i in enumerate(order):
        parts[n % shards].extend(runs[i])
    d = tempfile.mkdtemp(prefix='trace-')
    try:
        f = d + '/trace.json'
        with open(f, 'w') as fh:
            json.dump(parts, fh)
        rc, o, st = tlc(module, cfg, dict(env or {}, TRACE=f), timeout=timeout)
        if rc != 0 or 'No error has been found' not in o:
            where = re.findall(r'^(?:/\\ )?(shard|at) = (\d+)', o, re.M)
            last = dict(where[-2:]) if len(where) >= 2 else {}
            if 'shard' in last and 'at' in last and re.search(
                    r'Attempted to|The exception was|In evaluation|Evaluating|The error occurred when TLC was evaluating', o) \
                    and not re.search(r'OutOfMemory|StackOverflow|java\.lang\.(?!RuntimeException)', o):
                part = parts[int(last['shard']) - 1]
                if int(last['at']) < len(part):
                    return re.findall(r'<<"REJECTED", "([^"]*)"', o), st, part[int(last['at'])]['id']
            raise CheckError('TLC failed on %s:\n%s' % (module, '\n'.join(
                l for l in o.split('\n') if not l.startswith('<<"REJ'))[-3500:]))
        if st.get('distinct') != total + shards:
            raise CheckError('TLC consumed %s states, expected %d' % (st, total + shards))
        return re.findall(r'<<"REJECTED", "([^"]*)"', o), st, None
    finally:
        shutil.rmtree(d, ignore_errors=True)
