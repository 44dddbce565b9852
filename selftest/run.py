"""Vacuity and brittleness tests of the deductive part (not used by any check).

  python3-vt selftest/run.py breaking [id...]   every edit must leave at least one obligation refuted (or undecided)
  python3-vt selftest/run.py preserving [id...] no edit may leave an obligation refuted
Each edit is applied to a scratch clone of /repo; the clone is verified with PROPHY_REPO pointing at it."""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)


def child(groups):
    from contracts import suites
    obs = suites.run(groups)
    print(json.dumps([[o.name, o.status, o.detail[-300:]] for o in obs if o.status != 'proved']))


def main():
    if sys.argv[1] == 'child':
        return child(sys.argv[2:])
    kind = sys.argv[1]
    edits = importlib.import_module('selftest.' + kind).EDITS
    ids = sys.argv[2:] or list(edits)
    bad = 0
    for i in ids:
        groups, changes = edits[i]
        d = tempfile.mkdtemp(prefix='selftest')
        subprocess.check_call(['git', 'clone', '-q', '/repo', d + '/r'])
        for f, a, b in changes:
            p = os.path.join(d, 'r', f)
            with open(p) as fh:
                s = fh.read()
            if a not in s:
                print(i, 'NOMATCH', a)
                break
            with open(p, 'w') as fh:
                fh.write(s.replace(a, b, 1))
        else:
            r = subprocess.run([sys.executable, os.path.abspath(__file__), 'child'] + groups, stdout=subprocess.PIPE,
                               env=dict(os.environ, PROPHY_REPO=d + '/r', PYTHONDONTWRITEBYTECODE='1'))
            obs = json.loads(r.stdout)
            ref = [o for o in obs if o[1] == 'refuted']
            und = [o for o in obs if o[1] != 'refuted']
            ok = bool(ref or und) if kind == 'breaking' else not ref
            bad += not ok
            print('%-4s %s: %d refuted, %d undecided  %s' % ('ok' if ok else 'BAD', i, len(ref), len(und),
                                                          '; '.join('%s:%s' % (o[1][:3], o[0]) for o in (ref + und)[:2])), flush=True)
            if '-v' in os.environ.get('SELFTEST', ''):
                for o in ref + und:
                    print('     ', o)
        shutil.rmtree(d)
    print('%d unexpected' % bad)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
