"""Contracts on prophyc/file_processor.py (C16): which file an include denotes, that it is processed once, and the search path
while it is.  Paths are opaque texts, the file system and os.path are uninterpreted functions of them."""
import codecs
import io
import os

import z3

from contracts.base import B, I, Unsupported, cx, sym, xform
from engine.sym import Name, PathEnd, SimError, SymInt, SymList, SymSeq, Tok
from engine.xform import LoopPlan

import prophyc.file_processor as FP  # noqa: E402

JOIN, DIR, ABS = z3.Function('join', I, I, I), z3.Function('dirname', I, I), z3.Function('abspath', I, I)
ISFILE, EXISTS = z3.Function('isfile', I, B), z3.Function('exists', I, B)


class Only(object):
    """A module of which only the stated functions are modelled."""

    def __init__(self, name, **kw):
        self.__dict__.update(kw, name_=name)

    def __getattr__(self, a):
        raise Unsupported('%s.%s' % (self.name_, a))


def pred(f):
    return lambda p: cx().branch(f(Name.of(p)))


PATH = Only('os.path', join=lambda a, b: Name(JOIN(Name.of(a), Name.of(b))), dirname=lambda p: Name(DIR(Name.of(p))),
            abspath=lambda p: Name(ABS(Name.of(p))), isfile=pred(ISFILE), exists=pred(EXISTS))
OS = Only('os', path=PATH)


class Disk(object):
    """open(): the content of the file, or an error the reader has to report."""

    def __init__(self):
        self.reads, self.failed = [], False

    def open(self, path, mode='r', *a, **kw):
        if mode not in ('r', 'rt') or a or set(kw) != {'encoding'} or str(kw['encoding']).lower().replace('-', '') != 'utf8':
            raise Unsupported('open with %r' % ((mode, a, kw),))
        if cx().choose('cannot be opened'):
            self.failed = True
            raise EnvironmentError('unreadable')
        disk = self

        class File(object):
            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def close(self):
                pass

            def read(self):
                if cx().choose('is not utf-8'):
                    disk.failed = True
                    raise UnicodeDecodeError('utf-8', b'', 0, 1, 'bad')
                disk.reads.append(path)
                return Tok('content', SymInt(Name.of(path)))
        return File()


def world(disk=None):
    ov = [(os, OS), (os.path, PATH), (FP.push_dir, FP.push_dir), (FP.swap_dir, FP.swap_dir)]
    if disk is not None:
        ov += [(codecs, Only('codecs', open=disk.open)), (io, Only('io', open=disk.open)), (codecs.open, disk.open), (io.open, disk.open)]
    W = xform.World(None, ov)
    W.declare(FP.FileProcessor)
    return W


def plan():
    p = LoopPlan()
    p.search = True
    return p


class Dirs(object):
    def __init__(self, c):
        self.n = c.int('dirs', 0)
        self.f = z3.Function('dir', I, I)
        self.seq = SymSeq(self.n, lambda i: Name(self.f(i)), 'dirs')

    def list(self):
        return SymList([('seg', self.seq, z3.IntVal(0), self.n)])


def guarded(f, *a):
    """('return', value), ('designed', exception) or ('error', ...); what the proxies cannot run is unsupported."""
    try:
        return 'return', f(*a)
    except (Unsupported, PathEnd):
        raise
    except SimError as e:
        return 'error', e
    except (FP.CyclicIncludeError, FP.FileNotFoundError, FP.FileReadError, Boom) as e:
        return 'designed', e
    except (EnvironmentError, UnicodeError) as e:
        return 'error', e
    except Exception as e:
        raise Unsupported('raises %r' % e)


class Boom(Exception):
    """Any failure of the content processor."""


def first_existing():
    fname = 'prophyc.file_processor._get_first_existing_path'
    f = world().fn(FP._get_first_existing_path)

    def run(c):
        d = Dirs(c)
        leaf = Name(c.int('leaf', 0))
        how, r = guarded(f, leaf, d.list())
        c.record('%s: raises nothing' % fname, 'proved' if how == 'return' else 'refuted', repr(r))
        if how != 'return':
            return
        q = c.int('any directory', 0)
        c.assume(q < d.n)

        def at(k):
            return JOIN(d.f(k), leaf.t)
        if r is None or not isinstance(r, Name) and not r:
            c.outcome = 'none'
            c.prove('%s: nothing only if no directory holds the file' % fname, z3.Not(ISFILE(at(q))))
            return
        c.outcome = 'found'
        s, p = z3.Int('s?'), z3.Int('p?')
        c.prove('%s: the first directory that holds the file' % fname, z3.Exists([s], z3.And(
            s >= 0, s < d.n, Name.of(r) == at(s), ISFILE(at(s)), z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < s), z3.Not(ISFILE(at(p))))))))
    return xform.verify(fname, run, {'*': plan()}, ('none', 'found'))


def processor(W, dirs, content=None):
    p = object.__new__(W.classes[FP.FileProcessor])
    p.process_content, p.include_dirs, p.files = content, dirs, None
    return p


def same_dirs(c, name, got, d, first=None, push=False):
    """got is the original list, with its first entry pushed or replaced."""
    if not isinstance(got, SymList):
        raise Unsupported('search path')
    want = [('seg', d.seq, z3.IntVal(0), d.n)] if first is None else [('item', first), ('seg', d.seq, z3.IntVal(0 if push else 1), d.n)]
    a, b = got.seq(), SymList(want).seq()
    c.prove('%s: length' % name, a.n == b.n)
    q = c.int('place', 0)
    c.assume(z3.And(q < a.n, q < b.n))
    if c.feasible():
        sym.same(name, a.elem(q), b.elem(q))


def entry(kind):
    """process_main and process_leaf: the file runs with its own directory first, and the search path is restored however it ends."""
    main = kind == 'process_main'
    fname = 'prophyc.file_processor.FileProcessor.%s' % kind

    def run(c):
        d = Dirs(c)
        if not main:
            c.assume(d.n >= 1)      # pushed by process_main
        leaf = Name(c.int('path', 0))
        W = world()
        found = Name(c.int('found', 0))
        asked = []

        def first(leaf_, dirs):
            asked.append(leaf_)
            sym.same('%s: searched by the given name' % fname, leaf_, leaf)
            same_dirs(c, '%s: searched on the search path' % fname, dirs, d)
            return found if c.choose('some directory holds it') else None
        W.overrides.append((FP._get_first_existing_path, first))
        W = xform.World(None, W.overrides)
        W.declare(FP.FileProcessor)
        me = processor(W, d.list())
        runs = []

        def one(path):
            runs.append(path)
            want = leaf if main else found
            sym.same('%s: the file is processed' % fname, path, want)
            same_dirs(c, '%s: its own directory comes first' % fname, me.include_dirs, d, Name(DIR(want.t)), main)
            if c.choose('processing fails'):
                raise Boom()
            return Tok('result')
        me._process_file = one
        how, r = guarded(getattr(me, kind), leaf)
        c.record('%s: fails by designed errors only' % fname, 'refuted' if how == 'error' else 'proved', repr(r))
        same_dirs(c, '%s: the search path is restored' % fname, me.include_dirs, d)
        missing = z3.Not(EXISTS(leaf.t)) if main else None
        if isinstance(r, FP.FileNotFoundError):
            c.outcome = 'missing'
            if main:
                c.prove('%s: missing only if it does not exist' % fname, missing)
            c.record('%s: nothing is processed' % fname, 'refuted' if runs else 'proved', repr(runs))
            return
        if not main and not asked:
            raise Unsupported('the file is searched elsewhere')
        if isinstance(r, Boom):
            c.outcome = 'failed'
            return
        if how == 'designed':
            c.record('%s: no other error' % fname, 'refuted', repr(r))
            return
        c.outcome = 'processed'
        if main:
            c.prove('%s: processed only if it exists' % fname, z3.Not(missing))
        c.record('%s: processed once' % fname, 'proved' if len(runs) == 1 else 'refuted', repr(runs))
        sym.same('%s: its result' % fname, r, Tok('result'))
    return xform.verify(fname, run, {'*': plan()}, ('missing', 'failed', 'processed'))


class Files(object):
    """The cache: absolute path -> nothing, being processed (None) or a result."""

    def __init__(self):
        self.known, self.busy = z3.Function('known', I, B), z3.Function('busy', I, B)
        self.writes = []

    def at(self, k):
        t = Name.of(k)
        if t is None:
            raise Unsupported('cache by %r' % (k,))
        for i, v in reversed(self.writes):
            if cx().branch(i == t):
                return (v,)
        if not cx().branch(self.known(t)):
            return None
        return (None,) if cx().branch(self.busy(t)) else (Tok('cached', SymInt(t)),)

    def __contains__(self, k):
        return self.at(k) is not None

    def get(self, k, d=None):
        r = self.at(k)
        return d if r is None else r[0]

    def __getitem__(self, k):
        r = self.at(k)
        if r is None:
            raise SimError('KeyError')
        return r[0]

    def __setitem__(self, k, v):
        if Name.of(k) is None:
            raise Unsupported('cache by %r' % (k,))
        self.writes.append((Name.of(k), v))

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]


def process_file():
    fname = 'prophyc.file_processor.FileProcessor._process_file'

    def run(c):
        disk = Disk()
        W = world(disk)
        path = Name(c.int('path', 0))
        key = Name(ABS(path.t))
        calls, leafs = [], []
        me = processor(W, Dirs(c).list())
        me.files = Files()
        me.process_leaf = lambda x: leafs.append(x) or Tok('included')

        def content(*a, **kw):
            if kw or len(a) != 3:
                raise Unsupported('arguments of the content processor')
            calls.append(a)
            sym.same('%s: the content of the file is processed' % fname, a[0], Tok('content', SymInt(path.t)))
            sym.same('%s: under its path' % fname, a[1], path)
            got = me.files.at(key)
            c.record('%s: marked as being processed' % fname, 'proved' if got == (None,) else 'refuted', repr(got))
            leaf = Name(c.int('leaf', 0))
            got = a[2](leaf)
            if len(leafs) != 1:
                raise Unsupported('includes go elsewhere')
            sym.same('%s: includes of it go through process_leaf' % fname, got, Tok('included'))
            sym.same('%s: includes by their own name' % fname, leafs[0], leaf)
            if c.choose('processing fails'):
                raise Boom()
            return Tok('result')
        me.process_content = content
        how, r = guarded(me._process_file, path)
        known, busy = me.files.known(key.t), me.files.busy(key.t)
        if isinstance(r, FP.FileReadError):
            c.outcome = 'unreadable'
            c.record('%s: unreadable only if it cannot be read' % fname, 'proved' if disk.failed else 'unknown', repr(r))
            return
        c.record('%s: fails by designed errors only' % fname, 'refuted' if how == 'error' else 'proved', repr(r))
        if how == 'error':
            return
        q = Name(c.int('another file', 0))
        c.assume(q.t != key.t)
        if isinstance(r, FP.CyclicIncludeError):
            c.outcome = 'cyclic'
            c.prove('%s: cyclic only while the file is processed' % fname, z3.And(known, busy))
            c.record('%s: a cyclic include processes nothing' % fname, 'refuted' if calls else 'proved', '')
            return
        c.prove('%s: an include of a file being processed is reported' % fname, z3.Not(z3.And(known, busy)))
        if isinstance(r, Boom):
            c.outcome = 'failed'
        elif how == 'designed':
            c.record('%s: no other error' % fname, 'refuted', repr(r))
        elif c.branch(known):
            c.outcome = 'cached'
            sym.same('%s: a processed file gives its result again' % fname, r, Tok('cached', SymInt(key.t)))
            c.record('%s: a processed file is not processed again' % fname, 'refuted' if calls else 'proved', '')
        else:
            c.outcome = 'processed'
            c.record('%s: a new file is processed once' % fname, 'proved' if len(calls) == 1 else 'refuted', repr(len(calls)))
            sym.same('%s: the result' % fname, r, Tok('result'))
            got = me.files.at(key)
            sym.same('%s: the result is kept' % fname, got and got[0], Tok('result'))
        before = Files().at(q)
        sym.same('%s: other files keep their results' % fname, me.files.at(q), before)
    return xform.verify(fname, run, {'*': plan()}, ('cyclic', 'cached', 'processed', 'unreadable', 'failed'))


def search():
    return [first_existing(), entry('process_main'), entry('process_leaf')]


def cache():
    return [process_file()]
