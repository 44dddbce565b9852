"""Shared helpers for bounded evaluation of the prophyc front end."""
import importlib
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import zlib
from bounded import pycodec as P       # noqa: sets sys.path
from spec import schema as S
from spec import wire as W
from spec.wire import *      # noqa

INC = os.path.join(os.environ.get('PROPHY_REPO', '/repo'), 'prophy_cpp/include')


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


class Scratch(object):
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='vffr')
        self.cwd = os.getcwd()
        return self

    def __exit__(self, *_):
        os.chdir(self.cwd)
        shutil.rmtree(self.dir, ignore_errors=True)

    def write(self, name, text):
        p = os.path.join(self.dir, name)
        d = os.path.dirname(p)
        if not os.path.isdir(d):
            os.makedirs(d)
        with open(p, 'wb') as f:
            f.write(text if isinstance(text, bytes) else text.encode('utf-8'))
        return p

    def path(self, name):
        return os.path.join(self.dir, name)

    def mkdir(self, name):
        p = os.path.join(self.dir, name)
        if not os.path.isdir(p):
            os.makedirs(p)
        return p

    def read(self, sub='out'):
        res = {}
        base = os.path.join(self.dir, sub)
        for root, _, files in os.walk(base):
            for fn in files:
                with open(os.path.join(root, fn), 'rb') as f:
                    res[os.path.relpath(os.path.join(root, fn), base)] = f.read().decode('utf-8', 'replace')
        return res


def run_main(args, seconds=20):
    """The real prophyc.main: ('ok', nodes) | ('diagnostic', text) | ('crash', text) | ('hang', '')."""
    import prophyc
    import io
    import contextlib
    import resource
    limits = resource.getrlimit(resource.RLIMIT_AS)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)
    with open('/proc/self/statm') as f:
        size = int(f.read().split()[0]) * resource.getpagesize() + (2 << 30)
    resource.setrlimit(resource.RLIMIT_AS, (size if limits[1] == resource.RLIM_INFINITY else min(size, limits[1]), limits[1]))
    sink = io.StringIO()
    try:
        with contextlib.redirect_stderr(sink), contextlib.redirect_stdout(sink):
            res = prophyc.main(list(args))
        return 'ok', res
    except prophyc.ProphycError as e:
        return 'diagnostic', str(e)
    except SystemExit as e:
        return ('ok' if not e.code else 'diagnostic'), str(e.code)
    except Timeout:
        return 'hang', 'no answer in %d s' % seconds
    except Exception as e:
        if type(e) is Exception and str(e):
            return 'diagnostic', str(e)
        return 'crash', '%s: %s' % (type(e).__name__, str(e)[:300])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        resource.setrlimit(resource.RLIMIT_AS, limits)


OUTS = ('python', 'cpp', 'cpp_full')
SUFFIX = {'python': ['.py'], 'cpp': ['.pp.hpp', '.pp.cpp'], 'cpp_full': ['.ppf.hpp', '.ppf.cpp'], 'prophy': ['.prophy']}


def out_args(outdir, outs=OUTS):
    res = []
    for o in outs:
        res += ['--%s_out' % o, outdir]
    return res


def load_package(files, names):
    """Imports generated .py files as one package; returns {name: module}."""
    d = tempfile.mkdtemp(prefix='vfpk')
    pk = 'vfpk_%d_%s' % (os.getpid(), os.path.basename(d))
    try:
        pd = os.path.join(d, pk)
        os.mkdir(pd)
        open(os.path.join(pd, '__init__.py'), 'w').close()
        for fn, text in files.items():
            if fn.endswith('.py'):
                with open(os.path.join(pd, fn), 'w', encoding='utf-8') as f:
                    f.write(text)
        sys.path.insert(0, d)
        try:
            importlib.invalidate_caches()
            return dict((n, importlib.import_module(pk + '.' + n)) for n in names)
        finally:
            sys.path.remove(d)
            for k in list(sys.modules):
                if k == pk or k.startswith(pk + '.'):
                    del sys.modules[k]
    finally:
        shutil.rmtree(d)


def cpp_syntax(files, extra_tus=(), only=None):
    """clang++ -fsyntax-only over the generated sources (and extra TUs); returns '' or the first errors."""
    d = tempfile.mkdtemp(prefix='vfcx')
    try:
        tus = []
        for fn, text in list(files.items()) + list(extra_tus):
            p = os.path.join(d, fn)
            if not os.path.isdir(os.path.dirname(p)):
                os.makedirs(os.path.dirname(p))
            with open(p, 'w', encoding='utf-8') as f:
                f.write(text)
            if fn.endswith('.cpp') and (only is None or fn in only):
                tus.append(p)
        out = ''
        for tu in tus:
            p = subprocess.run(['clang++', '-std=c++11', '-fsyntax-only', '-w', '-I' + INC, '-I' + d, tu],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            if p.returncode:
                out += '\n'.join(l for l in p.stdout.replace(d + '/', '').split('\n') if 'error' in l)[:600] + '\n'
        return out
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------ isar
ISAR_PRIM = {"u8": "8 bit integer unsigned", "u16": "16 bit integer unsigned", "u32": "32 bit integer unsigned", "u64": "64 bit integer unsigned",
             "i8": "8 bit integer signed", "i16": "16 bit integer signed", "i32": "32 bit integer signed", "i64": "64 bit integer signed",
             "r32": "32 bit float", "r64": "64 bit float"}


def itype(t):
    return t.name


def isar_member(m):
    t = itype(m.type)
    if m.form == PLAIN:
        return '<member name="%s" type="%s"/>' % (m.name, t)
    if m.form == OPTIONAL:
        return '<member name="%s" type="%s" optional="true"/>' % (m.name, t)
    dim = {
        FIXED_ARR: 'size="%s"' % m.size_text,
        DYN_ARR: 'isVariableSize="true" variableSizeFieldName="num_of_%s"' % m.name,
        LIM_ARR: 'isVariableSize="true" size="%s" variableSizeFieldName="num_of_%s"' % (m.size_text, m.name),
        EXT_ARR: 'variableSizeFieldName="@%s"' % m.bound,
        GREEDY_ARR: 'size="1"',
    }[m.form]
    return '<member name="%s" type="%s"><dimension %s/></member>' % (m.name, t, dim)


COMMENTS = ('', '', '', 'plain', "the 'first' one", "it's '", 'C:\\x\\', '&quot;quoted&quot;', "two&#10;lines ''' */", u'// caf\u00e9 %s {0}')


def isar_comment(name):
    """Comments are part of the input: they change nothing."""
    c = COMMENTS[zlib.crc32(name.encode()) % len(COMMENTS)]
    return c and ' comment="%s"' % c


def isar_def(d):
    head = ' name="%s"' % d.name
    return isar_plain(d).replace(head, head + isar_comment(d.name), 1)


def isar_plain(d):
    if isinstance(d, Const):
        return '<constant name="%s" value="%s"/>' % (d.name, d.text)
    if isinstance(d, Typedef):
        if isinstance(d.target, W.Scalar):
            return '<typedef name="%s" primitiveType="%s"/>' % (d.name, ISAR_PRIM[d.target.name])
        return '<typedef name="%s" type="%s"/>' % (d.name, itype(d.target))
    if isinstance(d, Enum):
        return '<enum name="%s">%s</enum>' % (d.name, ''.join('<enum-member name="%s" value="%s"/>' % (m[0], m[2] if len(m) > 2 else m[1]) for m in d.members))
    if isinstance(d, Union):
        return '<union name="%s">%s</union>' % (d.name, ''.join('<member discriminatorValue="%s" name="%s" type="%s"/>' % (a.disc_text, a.name, itype(a.type)) for a in d.arms))
    return '<struct name="%s">%s</struct>' % (d.name, ''.join(isar_member(m) for m in d.members))


def isar_patch(defs):
    """Patch rules for what isar cannot say (greedy arrays)."""
    return ''.join('%s greedy %s\n' % (d.name, m.name) for d in defs if isinstance(d, Struct) for m in d.members if m.form == GREEDY_ARR)


def isar_text(defs):
    return '<xml>\n%s\n</xml>\n' % '\n'.join(('<part>%s</part>' if zlib.crc32(d.name.encode()) % 3 == 1 else '%s') % isar_def(d) for d in defs)


def layouts(nodes):
    """{type name: layout facts} of model nodes."""
    from prophyc import model
    res = {}
    for n in nodes:
        if isinstance(n, model.Struct):
            res[n.name] = (n.byte_size, n.alignment, n.kind, tuple((m.name, m.byte_size, m.alignment, m.padding, bool(m.optional), bool(m.greedy), m.bound) for m in n.members))
        elif isinstance(n, model.Union):
            res[n.name] = (n.byte_size, n.alignment, n.kind, tuple((m.name, m.byte_size, m.alignment) for m in n.members))
        elif isinstance(n, model.Typedef):
            res[n.name] = (n.kind,)
    return res


def statics(mod, t):
    c = getattr(mod, t.name)
    return (c._SIZE, c._ALIGNMENT, bool(c._DYNAMIC), bool(c._UNLIMITED))


def py_bytes(mod, t, v, e):
    m = getattr(mod, t.name)()
    S.fill(m, t, v)
    return m.encode(e)
