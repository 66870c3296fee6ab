"""Runs the sub-checks of a property: explicit cases, then Hypothesis search, shrinking, replay, evidence."""
import hashlib, importlib, io, json, multiprocessing as mp, os, re, signal, sys, time, traceback, warnings
import contextlib


class Violation(Exception):
    """The property does not hold for this case."""


class Skip(Exception):
    """The case is outside of the domain (counted as discarded)."""


class Hang(KeyboardInterrupt):
    """A case has run for too long (no Exception, so that neither composipy nor Hypothesis catches it)."""


def _on_alarm(*_):
    raise Hang


class Sub:
    def __init__(self, name, strategy, check, quick, thorough, rule='', nontrivial=None, explicit=(), budget=120,
                 explicit_thorough=(), limit=(120, 600)):
        self.limit = dict(zip(('quick', 'thorough'), limit))  # seconds of one case
        self.name, self.strategy, self.check = name, strategy, check
        self.n = {'quick': quick, 'thorough': thorough}
        self.rule, self.nontrivial = rule, nontrivial
        self.explicit, self.explicit_thorough, self.budget = explicit, explicit_thorough, budget


PROPS = {}  # id -> list of Sub


def sub(prop, name, strategy, quick, thorough, **kw):
    def deco(f):
        PROPS.setdefault(prop, []).append(Sub(name, strategy, f, quick, thorough, **kw))
        return f
    return deco


MODULES = ['props_material', 'props_laminate', 'props_strength', 'props_plate', 'props_buckling', 'props_optimize',
           'props_nastran', 'props_history', 'props_interface', 'props_generators']

REPO = None


def _canon(case):
    return json.dumps(case, sort_keys=True)


class Recorder:
    """Executes a check function on cases and keeps the counts."""

    def __init__(self, s, tier=None):
        self.s = s
        self.limit = s.limit[tier] if tier else 0
        self.evaluations = self.discarded = self.skipped_time = 0
        self.labels = {}
        self.nontrivial = set()
        self.samples = []

    def run(self, case):
        """None if it held, else the message. Harness errors propagate."""
        case = json.loads(json.dumps(case))  # exactly what a replay would see
        labels = set()
        self.evaluations += 1
        HISTORY.append((self.s.name, _canon(case)))
        msg = None
        if self.limit:
            signal.signal(signal.SIGALRM, _on_alarm)
            signal.alarm(self.limit)
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter('ignore')
                self.s.check(case, labels.add)
        except Violation as e:
            msg = str(e)
        except Skip as e:
            self.discarded += 1
            k = 'discarded: %s' % e
            self.labels[k] = self.labels.get(k, 0) + 1
            return None
        except Exception as e:
            where = _frame_in_repo(e)
            if where is None:
                if not isinstance(e, (TypeError, ValueError, LookupError, AttributeError, ArithmeticError)):
                    raise
                # what composipy returned is not of the form its results have (never happens on the unchanged tree)
                msg = 'the results could not be examined: %s: %s (%s)' % (
                    type(e).__name__, str(e)[:300], ', '.join(f.name for f in traceback.extract_tb(e.__traceback__)[-3:]))
            else:
                msg = 'composipy raised %s: %s (%s)' % (type(e).__name__, str(e)[:300], where)
        except Hang as e:
            raise Hang(_canon(case), 'no end after %d s%s' % (self.limit, ' (in %s)' % _frame_in_repo(e) if _frame_in_repo(e) else ''),
                       _frame_in_repo(e) is not None)
        finally:
            if self.limit:
                signal.alarm(0)
        for l in labels:
            self.labels[l] = self.labels.get(l, 0) + 1
        if 'trivial' not in labels and (self.s.nontrivial is None or self.s.nontrivial(case)):
            self.nontrivial.add(hashlib.sha1(_canon(case).encode()).digest()[:10])
            if len(self.samples) < 3 and len(_canon(case)) < 1500:
                self.samples.append(case)
        return msg


def _frame_in_repo(e):
    root = os.path.join(REPO, 'composipy') + os.sep
    hit = None
    for f in traceback.extract_tb(e.__traceback__):
        if f.filename.startswith(root) or (f.filename == '<string>' and hit):
            hit = '%s:%s' % (os.path.relpath(f.filename, REPO) if f.filename.startswith(root) else f.filename, f.name)
    return hit


HISTORY = []  # what this process has run so far: (sub-check, case)


def _isolated(s, todo):
    """The messages of running the cases one after another in a process without a past (None if it ends badly)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(120)
            res = [Recorder(t).run(c) for t, c in todo]
            with os.fdopen(w, 'w') as f:
                json.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        b = f.read()
    os.waitpid(pid, 0)
    return json.loads(b) if b else None


def _needs_history(s, case, history, subs):
    """The cases that have to run before this one for it to fail: [] if none, None if it could not be made to fail again."""
    by = {x.name: x for x in subs}
    t0 = time.time()
    fails = lambda h: bool((_isolated(s, [(by[n], json.loads(c)) for n, c in h] + [(s, case)]) or [None])[-1])
    if any(fails([]) for _ in range(3)):
        return []
    k = 1
    while k < 2 * len(history):  # the latest cases that suffice
        h = history[-k:]
        if fails(h):
            break
        k *= 2
        if time.time() - t0 > 120:
            return None
    else:
        return None
    step = max(1, len(h) // 2)
    while step and time.time() - t0 < 180:  # and of those as few as possible
        i = 0
        while i < len(h) and time.time() - t0 < 180:
            g = h[:i] + h[i + step:]
            if fails(g):
                h = g
            else:
                i += step
        step //= 2
    return h


def _work(job):
    """One shard of one sub-check, in a worker process."""
    prop, idx, shard, nshards, tier, seed, scale = job
    s = PROPS[prop][idx]
    r = Recorder(s, tier)
    out = dict(sub=s.name, idx=idx, violation=None, error=None, budget_hit=False)
    t0 = time.time()
    try:
        ex = list(s.explicit() if callable(s.explicit) else s.explicit)
        if tier == 'thorough':
            ex += list(s.explicit_thorough() if callable(s.explicit_thorough) else s.explicit_thorough)
        for case in ex[shard::nshards]:
            m = r.run(case)
            if m:
                out['violation'] = (json.loads(json.dumps(case)), m, HISTORY[:-1])
                break
        n = int(round(s.n[tier] * scale * (3 if tier == 'thorough' else 1)))
        n = n // nshards + (1 if shard < n % nshards else 0)
        if out['violation'] is None and n > 0:
            budget = s.budget * (6 if tier == 'thorough' else 1)
            _search(s, r, n, shard, seed, budget, tier, out, prop)
    except Hang as e:
        if len(e.args) > 2 and e.args[2]:  # it hangs in composipy
            out['violation'] = (json.loads(e.args[0]), e.args[1], None)
        else:
            out['error'] = str(e.args)
    except Exception:
        out['error'] = traceback.format_exc()
    out.update(evaluations=r.evaluations, discarded=r.discarded, labels=r.labels, nontrivial=r.nontrivial,
               samples=r.samples, wall=time.time() - t0)
    return out


def _search(s, r, n, shard, seed, budget, tier, out, prop):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase, Verbosity
    t0 = time.time()
    state = dict(first=None, fails={}, best=None, error=None)
    shrink_time = 40 if tier == 'quick' else 120

    class Fail(Exception):
        pass

    def fail():  # one place, so that Hypothesis sees one failure
        raise Fail

    def body(case):
        now = time.time()
        key = None
        if state['first'] is not None:
            key = _canon(case)
            if now - state['first'] > shrink_time:  # shrinking time is up: only known failures fail
                if key in state['fails']:
                    fail()
                return
        elif now - t0 > budget:
            out['budget_hit'] = True
            return
        m = r.run(case)
        if m:
            key = key or _canon(case)
            state['fails'].setdefault(key, (m, len(HISTORY) - 1))
            state['first'] = state['first'] or now
            if state['best'] is None or (len(key), key) <= (len(state['best']), state['best']):
                state['best'] = key
            fail()

    h = int.from_bytes(hashlib.sha256(('%s|%s|%s|%s' % (seed, prop, s.name, shard)).encode()).digest()[:8], 'big')
    strat = s.strategy() if callable(s.strategy) else s.strategy
    test = settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
                    report_multiple_bugs=False, verbosity=Verbosity.quiet,
                    suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink])(given(strat)(body))
    test = hypothesis.seed(h)(test)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            test()
    except Fail:
        pass
    except (hypothesis.errors.Flaky, BaseException) as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
            raise
        if state['best'] is None:
            raise
    if state['best'] is not None:
        # decide outside of Hypothesis
        for key in [state['best']] + sorted(state['fails'], key=len)[:20]:
            case = json.loads(key)
            m = Recorder(s).run(case)
            if m:
                out['violation'] = (case, m, HISTORY[:state['fails'][key][1]])
                return
        m, n = state['fails'][state['best']]
        out['violation'] = (json.loads(state['best']), m, HISTORY[:n])


def load(repo):
    global REPO
    REPO = repo
    import composipy
    f = os.path.abspath(composipy.__file__)
    if not f.startswith(os.path.join(repo, 'composipy') + os.sep):
        raise RuntimeError('composipy comes from %s, not from %s' % (f, repo))
    for m in MODULES:
        try:
            importlib.import_module('pbt.' + m)
        except ModuleNotFoundError as e:
            if e.name != 'pbt.' + m:
                raise


def known_findings(here):
    """Lines 'known: property=<id> sub=<sub> case=<json> what=<text>' of the known-findings file."""
    res = []
    p = os.path.join(here, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) sub=(\S+) case=(.*) what=(.*)$', line.strip())
            if m:
                res.append(m.groups())
    return res


def run_property(a, repo, here):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    load(repo)
    if a.prop not in PROPS:
        print('unknown property', a.prop)
        return 2
    subs = PROPS[a.prop]

    if a.replay:
        d = json.load(open(a.replay))
        s = [s for s in subs if s.name == d['sub']][0]
        for name, case in d.get('history', []):
            Recorder([s for s in subs if s.name == name][0]).run(json.loads(case))
        try:
            m = Recorder(s, a.tier).run(d['case'])
        except Hang as e:
            m = e.args[1] if len(e.args) > 2 and e.args[2] else None
        print('sub-check %s: %s' % (s.name, m or 'held'))
        if m:
            print('VIOLATION property=%s replay=%s' % (a.prop, a.replay))
        return 1 if m else 0

    # known findings (none suppresses anything but its own case)
    known = set()
    for prop, name, case, what in known_findings(here):
        if prop == a.prop:
            s = [s for s in subs if s.name == name][0]
            c = json.loads(case)
            if Recorder(s).run(c):
                print('KNOWN-FINDING: property=%s %s' % (prop, what))
                known.add((name, _canon(c)))

    cpus = a.jobs or min(8, os.cpu_count() or 1)
    nshards = cpus
    jobs = []
    for i, s in enumerate(subs):
        if a.sub and s.name != a.sub:
            continue
        for k in range(nshards):
            jobs.append((a.prop, i, k, nshards, a.tier, seed, a.scale))
    results = []
    errors = []
    if cpus == 1:
        results = [_work(j) for j in jobs]
    else:
        with mp.get_context('fork').Pool(cpus, maxtasksperchild=None) as pool:
            rs = [pool.apply_async(_work, (j,)) for j in jobs]
            limit = t0 + (800 if a.tier == 'quick' else 4 * 3600)
            for j, x in zip(jobs, rs):
                try:
                    results.append(x.get(timeout=max(1, limit - time.time())))
                except mp.TimeoutError:
                    errors.append('no answer from shard %s of %s' % (j[2], subs[j[1]].name))
            pool.terminate()

    per = {}
    violation = None
    nontrivial = 0
    samples = []
    for i, s in enumerate(subs):
        rs = [r for r in results if r['idx'] == i]
        if not rs:
            continue
        labels = {}
        nt = set()
        for r in rs:
            nt |= r['nontrivial']
            for k, v in r['labels'].items():
                labels[k] = labels.get(k, 0) + v
            if r['error']:
                errors.append('%s: %s' % (s.name, r['error']))
        vs = [r['violation'] for r in rs if r['violation'] and (s.name, _canon(r['violation'][0])) not in known]
        if vs:
            v = min(vs, key=lambda v: (len(_canon(v[0])), _canon(v[0])))
            if violation is None:
                violation = (s.name,) + tuple(v)
        nontrivial += len(nt)
        smp = sum([r['samples'][:2] for r in rs], [])[:3]
        samples += [{'sub': s.name, 'case': c} for c in smp]
        per[s.name] = dict(evaluations=sum(r['evaluations'] for r in rs), distinct_nontrivial=len(nt), rule=s.rule,
                           discarded=sum(r['discarded'] for r in rs), classes=dict(sorted(labels.items())),
                           inconclusive_shards=sum(r['budget_hit'] for r in rs),
                           cpu_s=round(sum(r['wall'] for r in rs), 2))
    evidence = dict(property=a.prop, tier=a.tier, seed=seed, level='exploration',
                    coverage=dict(evaluations=sum(p['evaluations'] for p in per.values()),
                                  distinct_nontrivial=nontrivial,
                                  rule='Hypothesis-generated JSON cases plus explicit ones; per sub-check: ' +
                                  '; '.join('%s: %s' % (n, p['rule'] or 'every case') for n, p in per.items()),
                                  samples=samples[:12], subchecks=per),
                    assumptions=['numpy/scipy dense linear algebra', 'the reference models in pbt/ref.py'],
                    wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    if not a.sub:
        ed = os.environ.get('VERIF_EVIDENCE') or os.path.join(here, 'evidence')
        os.makedirs(ed, exist_ok=True)
        with open(os.path.join(ed, a.prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
            f.write('\n')
    for n, p in per.items():
        print('%s %s: %d cases, %d distinct non-trivial, %.1f cpu s%s' % (
            a.prop, n, p['evaluations'], p['distinct_nontrivial'], p['cpu_s'],
            ', %d shards ran out of time' % p['inconclusive_shards'] if p['inconclusive_shards'] else ''))
    if violation:
        rd = os.environ.get('VERIF_REPLAYS') or os.path.join(here, 'replays')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s-%s.json' % (a.prop, violation[0]))
        past = [] if violation[3] is None else _needs_history([s for s in subs if s.name == violation[0]][0], violation[1], violation[3], subs)
        with open(path, 'w') as f:
            json.dump(dict(property=a.prop, sub=violation[0], message=violation[2], case=violation[1],
                           history=violation[3][-200:] if past is None else past), f, indent=1)
            f.write('\n')
        if past:
            print('it fails after %d earlier cases in the same process (they are in the replay file)' % len(past))
        elif past is None:
            print('it failed in the run, but not when it was run again')
        print('%s %s: %s' % (a.prop, violation[0], violation[2]))
        print('case: %s' % _canon(violation[1])[:2000])
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        return 1
    if errors:
        print('\n'.join(errors))
        return 2
    print('%s held on everything explored (%.1f s)' % (a.prop, time.time() - t0))
    return 0
