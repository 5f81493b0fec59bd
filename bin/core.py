"""What all the checks share: run cases on the real code, let the specification judge the
events, make sure of a rejection, report, write the evidence."""
import json, os, random, shutil, sys, tempfile, time
import vp
from vp import CheckError, VERIF

MODULES = {}          # property -> trace module


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == 'quick'
        self.rng = random.Random('%s %s' % (pid, seed))
        self.tmp = tempfile.mkdtemp(prefix='vp-%s-' % pid)
        self.states = self.transitions = self.traces = self.events = 0
        self.distinct = set()
        self.samples = []
        self.models = []
        self.notes = []
        self.violations = []
        self.sure = 0                       # violations which happened twice and are not known
        self.left = 240.          # seconds to look for what must come before a rejected case
        self.start = time.time()
        self.hangs = 0                      # of the programs; after some of them no more runs are tried

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # -- models
    def model(self, module, cfg=None, env=None, **kw):
        t = time.time()
        st = vp.model_check(module, cfg or module + '.cfg', env, **kw)
        self.states += st['distinct']
        self.transitions += st['generated']
        self.models.append({'module': module, 'cfg': cfg or module + '.cfg', 'states': st['distinct'],
                            'transitions': st['generated'], 's': round(time.time() - t, 1)})

    # -- inputs that the specification generates
    def gen(self, module, **consts):
        """What the module Gen* writes: the inputs of a machine of the specification."""
        t = time.time()
        cfg, out = '%s/%s.cfg' % (self.tmp, module), '%s/%s.json' % (self.tmp, module)
        with open(cfg, 'w') as f:
            f.write('SPECIFICATION GenSpec\nCONSTANTS\n' + ''.join('  %s = %s\n' % kv for kv in consts.items()))
        rc, o, _ = vp.tlc(module, cfg, {'OUT': out}, workers=1)
        if rc != 0 or 'No error has been found' not in o:
            raise CheckError('%s generates nothing:\n%s' % (module, o[-3000:]))
        with open(out) as f:
            res = json.load(f)
        os.unlink(out)
        self.models.append({'module': module, 'cfg': ' '.join('%s=%s' % kv for kv in consts.items()),
                            'generated_inputs': len(res), 's': round(time.time() - t, 1)})
        return res

    def some(self, items, quick, thorough=None):
        """So many of the items at most, drawn at random."""
        n = quick if self.quick else thorough
        return items if n is None or len(items) <= n else self.rng.sample(items, n)

    def enough(self):
        """Violations to show; the rest of the check would not change its answer."""
        return self.sure >= 4 or self.sure and time.time() - self.start > 200

    # -- conformance
    def conform(self, module, cases, env=None, cfg='Trace.cfg', shards=None, timeout=20, keep=1, maxbad=12):
        """cases: list of cases (each a run of one or several events)."""
        if not cases or self.enough():
            return
        self.hangs = 0
        cases = mixed(cases)
        runs = execute(self, cases, timeout)
        live = [s for c, r in zip(cases, runs) for s in split(c, r)]
        bad, st = vp.validate(module, live, cfg=cfg, env=env, shards=shards)
        self.states += st['distinct']
        self.transitions += st['generated']
        self.traces += len([r for r in runs if r])
        for r in live:
            self.events += len(r)
        for c in random.Random(1).sample(cases, min(keep, len(cases))):
            self.samples.append(brief(c))
        if not bad:
            return
        # again, only the rejected cases: twice the same answer or nothing
        byid = {}
        for c, r in zip(cases, runs):
            for e in r:
                byid[e['id']] = c
        first = []
        seen = set()
        for b in bad:
            c = byid[b]
            if id(c) not in seen:
                seen.add(id(c))
                first.append(c)
        for c in first[:maxbad]:
            if self.enough():
                break
            self.hangs = 0
            runs2 = execute(self, [c], timeout * 2)
            bad2, _ = vp.validate(module, split(c, runs2[0]), cfg=cfg, env=env)
            if bad2:
                self.sure += case_key(c) not in [k for k, _ in known_findings(self.pid)]
                self.violations.append({'module': module, 'cfg': cfg, 'env': env or {}, 'case': c,
                                        'events': [e for e in runs2[0] if e['id'] in bad2]})
                continue
            why = [e.get('st') for r in runs for e in r if e['id'] in bad and byid[e['id']] is c]
            h = None if 'hang' in why else self.after(module, cases, c, env, cfg, timeout)
            if h:
                self.sure += case_key(h[0]) not in [k for k, _ in known_findings(self.pid)]
                self.violations.append({'module': module, 'cfg': cfg, 'env': env or {}, 'case': h[0], 'events': h[1]})
            else:
                self.notes.append('a rejection which did not repeat: %s' % brief(c))

    def after(self, module, cases, c, env, cfg, timeout):
        """A case rejected only after those which were run before it in the same process: what is
        kept from one call to another shows.  -> (the case with what comes before it, events) or None"""
        if c['k'] != 'drv':
            return None
        end = time.time() + min(90, self.left)
        start = time.time()

        def rejected(before):
            if time.time() > end:
                return None
            d = dict(c, before=before)
            runs = execute(self, [d], timeout * 2)
            bad, _ = vp.validate(module, split(d, runs[0]), cfg=cfg, env=env)
            return (d, [e for e in runs[0] if e['id'] in bad]) if bad else None
        part = same_process(cases, c)
        n, found = 1, None
        while not found:
            found = rejected(part[-n:])
            if n >= len(part):
                break
            n *= 8
        # fewer of them
        self.left -= time.time() - start
        step = len(found[0]['before']) // 2 if found else 0
        while step:
            i = 0
            while i < len(found[0]['before']):
                b = found[0]['before']
                less = rejected(b[:i] + b[i + step:])
                if less:
                    found = less
                else:
                    i += step
                if time.time() > end or i > 4 * step:
                    break
            step //= 2
        return found


def mixed(cases):
    """Small and large cases one after the other in the same process."""
    blocks = [cases[i:i + 4] for i in range(0, len(cases), 4)]
    random.Random(1).shuffle(blocks)
    return [c for b in blocks for c in b]


def split(c, run):
    return [[e] for e in run] if c['k'] == 'drv' else [run] if run else []


def brief(c):
    s = json.dumps(c.get('line') or c.get('steps') or c)
    return s if len(s) < 500 else s[:500] + '...'


RUNNERS = {}


def same_process(cases, c):
    """The cases which run_driver runs before c in the process of c."""
    all = [x for x in cases if x['k'] == 'drv' and x['drv'] == c['drv']]
    at = next(i for i, x in enumerate(all) if x is c)
    n = (len(all) + vp.NCPU - 1) // vp.NCPU if len(all) > 50 else len(all)
    return all[at // n * n:at]


def execute(ctx, cases, timeout):
    """-> list of runs (lists of events), in the order of the cases."""
    out = [None] * len(cases)
    groups = {}
    for i, c in enumerate(cases):
        groups.setdefault((c['k'], c.get('drv')), []).append(i)
    for (kind, drv), idx in groups.items():
        if kind == 'drv':
            exe = vp.build([drv, drv + '.plain'])
            lines = []
            files = []

            def add(name, c):
                line = c['line']
                if '@F' in line:
                    for k, h in enumerate(c['files']):
                        f = '%s/f%s_%d' % (ctx.tmp, name, k)
                        if h is not None:
                            with open(f, 'wb') as fh:
                                fh.write(bytes.fromhex(h))
                        files.append(f)
                        line = line.replace('@F%d' % k, f.encode().hex())
                lines.append((name, line))
            for i in idx:
                for n, b in enumerate(cases[i].get('before', ())):
                    add('b%d_%d' % (i, n), b)
                add('c%d' % i, cases[i])
            jobs = 1 if any(cases[i].get('before') for i in idx) else vp.NCPU
            res = vp.run_driver(exe[drv], lines, timeout=timeout, jobs=jobs)
            # once more, built as the programs are: other optimisations, and memory which is used again.
            # What differs is judged too.
            sane = all(st in ('ok', 'exc') for st, _ in res.values())
            plain = vp.run_driver(exe[drv + '.plain'], lines, timeout=timeout, jobs=jobs, limit=vp.PLAIN) if sane else res
            for i in idx:
                st, o = res['c%d' % i]
                if st == 'skipped':
                    out[i] = []
                    continue
                out[i] = []
                for n, (st, o) in (('c', res['c%d' % i]), ('p', plain['c%d' % i])):
                    if n == 'p' and (st == 'skipped' or (st, o) == res['c%d' % i]):
                        continue
                    e = {'id': '%s%d' % (n, i), 'st': st}
                    e.update(cases[i]['ev'])
                    if st == 'ok':
                        e['out'] = o
                    elif st != 'exc':
                        e['why'] = str(o)
                    out[i].append(e)
            for f in files:
                try:
                    os.unlink(f)
                except OSError:
                    pass
        else:
            for i, r in RUNNERS[kind](ctx, [(i, cases[i]) for i in idx], timeout):
                out[i] = r
    return out


def drv(name, op_, args, /, **ev):
    files = ev.pop('files_', None)
    c = {'k': 'drv', 'drv': name, 'line': op_ + ' ' + args, 'ev': ev}
    if files is not None:
        c['files'] = files
    return c


def hexs(b):
    if isinstance(b, str):
        b = b.encode('utf-8', 'surrogateescape')
    return b.hex() or '-'


def bs(b):
    if isinstance(b, str):
        b = b.encode('utf-8', 'surrogateescape')
    return list(b)


# ------------------------------------------------------------------ known findings
def known_findings(pid):
    """Lines 'property=<id> key=<...> <what fails>' of known-findings.txt; 'fixed:' lines suppress nothing."""
    out = []
    try:
        for l in open(VERIF + '/known-findings.txt'):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                f = l.split(' ', 3)
                out.append((f[2][len('case='):], f[3]))
    except OSError:
        pass
    return out


def case_key(c):
    import hashlib
    d = {k: v for k, v in c.items() if k != 'id'}
    return hashlib.sha256(json.dumps(d, sort_keys=True).encode()).hexdigest()[:16]


def finish(ctx, t0):
    pid = ctx.pid
    known = known_findings(pid)
    new = []
    for v in ctx.violations:
        k = case_key(v['case'])
        if k not in [x for x, _ in known]:
            new.append(v)
    for k, what in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    ev = {'property': pid, 'tier': ctx.tier, 'seed': ctx.seed, 'level': 'model_checking',
          'coverage': {'states': ctx.states, 'transitions': ctx.transitions,
                       'traces_validated_against_impl': ctx.traces, 'events_judged': ctx.events,
                       'models': ctx.models, 'samples': ctx.samples[:12] or ['-'],
                       'notes': ctx.notes},
          'assumptions': ['TLC evaluates the specification correctly', 'the drivers report what the code did'],
          'wall_s': round(time.time() - t0, 1), 'violations': len(new)}
    with open(VERIF + '/evidence/%s.json' % pid, 'w') as f:
        json.dump(ev, f, indent=1)
    if not new:
        print('%s: held on %d runs (%d events), %d states, %.1f s' % (
            pid, ctx.traces, ctx.events, ctx.states, time.time() - t0))
        return 0
    os.makedirs(VERIF + '/replay', exist_ok=True)
    for n, v in enumerate(new[:5]):
        f = 'replay/%s-%s.json' % (pid, case_key(v['case']))
        if 'DBS' in v['env']:               # what the events refer to goes with them
            d = VERIF + '/' + f[:-5] + '.dbs.json'
            shutil.copy(v['env']['DBS'], d)
            v['env'] = dict(v['env'], DBS=d)
        with open(VERIF + '/' + f, 'w') as fh:
            json.dump(v, fh)
        print('VIOLATION property=%s replay=%s' % (pid, f))
        for e in v['events'][:2]:
            print('   ' + json.dumps(e)[:600])
    return 1
