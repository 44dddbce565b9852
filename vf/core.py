"""Running a property's check: deductive obligations first, bounded contract evaluation next,
then the verdict, the evidence file and the replay file."""
import hashlib
import json
import multiprocessing
import os
import random
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, 'evidence')
REPLAYS = os.path.join(ROOT, 'replays')
KNOWN = os.path.join(ROOT, 'known_findings.txt')


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '0') or 0)
    except ValueError:
        return int(hashlib.sha256(os.environ['VERIF_SEED'].encode()).hexdigest()[:8], 16)


def tier():
    return 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'


def rng(*key):
    """Every random choice of a run comes from VERIF_SEED and a fixed key."""
    return random.Random(repr((seed(),) + key))


class Fail(object):
    """A concrete input on which the real code broke the contract."""

    def __init__(self, clause, summary, **data):
        self.clause, self.summary, self.data = clause, summary, data

    def size(self):
        return len(json.dumps(self.data, default=repr))


class Unit(object):
    """Result of one bounded work unit."""

    def __init__(self):
        self.evals = 0
        self.nontrivial = set()
        self.fails = []
        self.samples = []
        self.errors = []

    def ok(self, key=None, sample=None):
        self.evals += 1
        if key is not None:
            self.nontrivial.add(hashlib.md5(repr(key).encode()).digest()[:8])
            if len(self.samples) < 2:
                self.samples.append(sample if sample is not None else repr(key)[:600])

    def fail(self, clause, summary, **data):
        self.evals += 1
        if len(self.fails) < 40:
            self.fails.append(Fail(clause, summary, **data))


def _run_unit(args):
    fn, a = args
    u = Unit()
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        fn(u, *a)
    except Exception as e:
        if from_compiler(e):
            u.fail('valid schemas compile and the generated module imports', traceback.format_exc()[-600:], unit=fn.__name__, args=repr(a), schema=last_schema.get('text', ''))
        else:
            u.errors.append('%s%r: %s' % (fn.__name__, a, traceback.format_exc()))
    return u


last_schema = {}


def from_compiler(e):
    """Whether prophyc.main, or a module it generated, raised on an input of ours which is valid."""
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    frames = traceback.extract_tb(e.__traceback__)
    ours = [i for i, f in enumerate(frames) if f.filename.startswith(root + os.sep)]
    rest = frames[ours[-1] + 1:] if ours else []
    return bool(rest) and (rest[0].name == 'main' and rest[0].filename.endswith('prophyc/__init__.py') or rest[0].name == '<module>' and rest[0].filename == last_schema.get('module'))


def run_units(work, procs=None, deadline=None):
    """work: [(fn, args)].  Runs in a process pool (fork), stops handing out new units past the deadline."""
    procs = procs or min(8, os.cpu_count() or 2)
    total = Unit()
    done = 0
    t0 = time.time()
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(procs, maxtasksperchild=8) as pool:
        pending = []
        it = iter(work)
        exhausted = False
        while True:
            while not exhausted and len(pending) < procs + 2:
                if deadline and time.time() - t0 > deadline and done:
                    exhausted = True
                    break
                try:
                    pending.append(pool.apply_async(_run_unit, (next(it),)))
                except StopIteration:
                    exhausted = True
            if not pending:
                break
            r = pending.pop(0)
            u = r.get()
            done += 1
            total.evals += u.evals
            total.nontrivial |= u.nontrivial
            total.fails += u.fails
            total.errors += u.errors
            if len(total.samples) < 5:
                total.samples += u.samples[:2]
    total.units = done
    return total


class Ob(object):
    """One proof obligation: status is proved | refuted | unknown | unsupported."""

    def __init__(self, name, function, status, solver_s=0.0, detail='', model=None, backend='z3', covers=None):
        self.name, self.function, self.status, self.solver_s = name, function, status, solver_s
        self.detail, self.model, self.backend = detail, model, backend

    def js(self):
        d = {'name': self.name, 'function': self.function, 'status': self.status, 'backend': self.backend,
             'solver_s': round(self.solver_s, 4)}
        if self.status != 'proved':
            d['detail'] = self.detail[:2000]
            if self.model:
                d['model'] = str(self.model)[:2000]
        return d


def known_findings(prop):
    """[(signature, text)] of listed, unfixed findings of this property."""
    res = []
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: property=%s ' % prop):
                    res.append(line[len('known: property=%s ' % prop):])
    except IOError:
        pass
    return res


def write_replay(prop, payload):
    if not os.path.isdir(REPLAYS):
        os.makedirs(REPLAYS)
    body = json.dumps(payload, indent=1, sort_keys=True, default=repr)
    path = os.path.join(REPLAYS, '%s-%s.json' % (prop, hashlib.md5(body.encode()).hexdigest()[:10]))
    with open(path, 'w') as f:
        f.write(body)
    return path


def finish(prop, spec, obs, total, t0, extra=None):
    """Verdict, evidence, exit status."""
    refuted = [o for o in obs if o.status == 'refuted']
    bounded = [o for o in obs if o.backend == 'bounded']
    obs = [o for o in obs if o.backend != 'bounded']
    proved = [o for o in obs if o.status == 'proved']
    other = [o for o in obs if o.status in ('unknown', 'unsupported')]
    violations = []
    code = 0
    lines = []
    fails = sorted(total.fails, key=lambda f: f.size())
    if fails:
        f = fails[0]
        path = write_replay(prop, {'property': prop, 'clause': f.clause, 'summary': f.summary, 'input': f.data,
                                   'failed_obligations': [o.js() for o in refuted], 'other_failures': len(fails) - 1,
                                   'reproduce': 'python check.py --replay %s <this file>' % prop})
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        violations.append({'clause': f.clause, 'summary': f.summary, 'replay': path})
        code = 1
    elif refuted:
        o = refuted[0]
        path = write_replay(prop, {'property': prop, 'failed_obligations': [x.js() for x in refuted],
                                   'verifier_output': o.detail, 'model': str(o.model), 'input': None})
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        violations.append({'obligation': o.name, 'function': o.function, 'replay': path})
        code = 1
    elif total.errors:
        sys.stderr.write(total.errors[0] + '\n')
        code = 3
    elif not total.evals and not proved:
        sys.stderr.write('nothing was checked\n')
        code = 3
    for k in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    cov = {
        'obligations': len(obs),
        'discharged': len(proved),
        'undecided': [o.js() for o in other],
        'refuted': [o.js() for o in refuted],
        'functions_under_contract': sorted(set(o.function for o in obs)),
        'obligation_list': [o.js() for o in proved][:400],
        'backends': sorted(set(o.backend for o in obs)),
        'solver_s': round(sum(o.solver_s for o in obs), 3),
        'checker_cmd': 'python3-vt check.py %s' % prop,
        'trusted_base': spec.get('trusted', []),
        'evaluations': total.evals,
        'distinct_nontrivial': len(total.nontrivial),
        'rule': spec.get('rule', ''),
        'samples': total.samples[:5],
        'violation_list': violations,
        'explanation': spec['note'],
        'bounded_standin': {'bound': spec.get('bound', ''), 'units': getattr(total, 'units', 0),
                            'contracts_enumerated': [o.js() for o in bounded], 'label': 'bounded: not counted as proved'},
    }
    if extra:
        cov.update(extra)
    # a run that leaves obligations undecided does not claim the proof
    level = 'exploration' if spec['level'] == 'proof' and len(proved) < len(obs) else spec['level']
    ev = {'property': prop, 'tier': tier(), 'seed': seed(), 'level': level, 'coverage': cov,
          'wall_s': round(time.time() - t0, 2), 'assumptions': spec.get('assumptions', []), 'violations': len(violations)}
    if not os.path.isdir(EVID):
        os.makedirs(EVID)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=repr)
    for l in lines:
        print(l)
    for f in fails[:3]:
        print('  %s: %s' % (f.clause, f.summary))
    for o in refuted[:5]:
        print('  obligation %s of %s refuted: %s' % (o.name, o.function, o.detail[:300]))
    print('%s %s: %d/%d obligations discharged, %d undecided, %d bounded evaluations, %.1f s' % (
        prop, 'VIOLATED' if code == 1 else 'held' if code == 0 else 'ERROR', len(proved), len(obs), len(other),
        total.evals, time.time() - t0))
    return code
