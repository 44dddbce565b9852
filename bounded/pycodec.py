"""Loading real prophyc output as Python modules."""
import os
import shutil
import sys
import tempfile
import types

from vf import core

sys.path.insert(0, os.environ.get('PROPHY_REPO', '/repo'))
SITE = '/opt/venv/lib/python3.12/site-packages'
if SITE not in sys.path:
    sys.path.append(SITE)
sys.dont_write_bytecode = True


class Compiled(object):
    pass


def compile_text(text, outs=('python',), name='sch', isar=None, patch=None, extra=()):
    """Run the real prophyc.main on text; returns dict of output name -> text."""
    import prophyc
    d = tempfile.mkdtemp(prefix='vfpy')
    try:
        ext = '.xml' if isar else '.prophy'
        src = os.path.join(d, name + ext)
        with open(src, 'w', encoding='utf-8') as f:
            f.write(text)
        core.last_schema.update(text=text)
        args = ['--quiet']
        if isar:
            args.append('--isar')
        if patch is not None:
            pf = os.path.join(d, 'p.patch')
            with open(pf, 'w') as f:
                f.write(patch)
            args += ['--patch', pf]
        odir = os.path.join(d, 'out')
        os.mkdir(odir)
        for o in outs:
            args += ['--%s_out' % o, odir]
        prophyc.main(args + list(extra) + [src])
        res = {}
        for fn in os.listdir(odir):
            with open(os.path.join(odir, fn), encoding='utf-8') as f:
                res[fn] = f.read()
        return res
    finally:
        shutil.rmtree(d)


def load_python(src, modname='sch'):
    mod = types.ModuleType(modname)
    core.last_schema.update(module=modname + '.py')
    exec(compile(src, modname + '.py', 'exec'), mod.__dict__)
    return mod
