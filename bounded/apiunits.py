"""Bounded contract evaluation of the Python message API (C10) and copy_from (C11):
random operation histories on real messages against a plain reference model (nested dicts and lists)."""
import copy
from vf import core
from spec import schema as S
from spec import wire as W
from bounded import gen, pyunits


class Bad(Exception):
    """The reference model refuses the operation; args: allowed exception names."""


def prophy_error():
    import prophy
    return prophy.ProphyError


LISTY = ('ProphyError', 'IndexError', 'ValueError')


def is_comp(t):
    return isinstance(W.resolve(t), (W.Struct, W.Union))


def limit(struct, m):
    """Most elements the field can hold: its own size, and what its counter can express."""
    if m.form == W.GREEDY_ARR:
        return None
    if m.form == W.FIXED_ARR:
        return m.size
    if m.form == W.EXT_ARR:
        s = [x for x in struct.members if x.name == m.bound][0]
        return W.resolve(s.type).hi
    if m.form == W.LIM_ARR:
        return m.size
    return 2 ** 32 - 1


def norm(t, x):
    """Reference check of a scalar or enum value: the value stored, or Bad."""
    t = W.resolve(t)
    if isinstance(t, W.Enum):
        if isinstance(x, str):
            for m in t.members:
                if m[0] == x:
                    return m[1]
            raise Bad('ProphyError')
        if isinstance(x, int) and any(m[1] == x for m in t.members):
            return int(x)
        raise Bad('ProphyError')
    if t.lo is None:
        if not isinstance(x, (int, float)):
            raise Bad('ProphyError')
        big = 3.5e38 if W.size(t) == 4 else float('inf')
        try:
            if abs(float(x)) >= big and abs(float(x)) != float('inf'):
                raise Bad('ProphyError')
        except OverflowError:
            raise Bad('ProphyError')
        return x
    if not isinstance(x, int) or not t.lo <= x <= t.hi:
        raise Bad('ProphyError')
    return int(x)


JUNK = [None, 'x', b'x', 1.5, [], (1,), {}]


def cand(r, t):
    """A candidate value for a scalar/enum: mostly legal."""
    t = W.resolve(t)
    k = r.random()
    if isinstance(t, W.Enum):
        if k < 0.4:
            return r.choice(t.members)[1]
        if k < 0.8:
            return r.choice(t.members)[0]
        return r.choice([None, 'nope', -1, 4, 2 ** 32, 2 ** 40, 1.5, b'x', ''])
    if t.lo is None:
        if k < 0.8:
            return r.choice(S.FLOATS32 + [5, True])
        return r.choice([None, 'x', b'', [], 1e39 if W.size(t) == 4 else 10 ** 400, -1e39 if W.size(t) == 4 else -10 ** 400])
    if k < 0.75:
        return S.rand_scalar(r, t)
    if k < 0.8:
        return r.choice([True, False])
    return r.choice([t.lo - 1, t.hi + 1, 2 ** 70, -2 ** 70, 1.0] + JUNK)


def rslice(r, n):
    def b():
        return r.choice([None, 0, 1, 2, -1, -2, n, n + 2, -n - 1, r.randint(-3, 5)])
    return slice(b(), b(), r.choice([None, None, None, 1, 2, -1, -2]))


class Model(object):
    """A real message and the reference state, kept side by side."""

    def __init__(self, mod, t):
        self.t, self.msg = t, getattr(mod, t.name)()
        self.v = S.default_value(t)
        self.mod = mod

    # ------------------------------------------------ walking
    def walk(self, r):
        """A random composite inside the message: (type, reference node, real node, holder)."""
        t, v, m, path = W.resolve(self.t), self.v, self.msg, ''
        while r.random() < 0.7:
            opts = []
            if isinstance(t, W.Union):
                a = W.union_arm(t, (v.arm, None)) if isinstance(v, UVal) else None
                if a is not None and is_comp(a.type):
                    opts.append((a.type, lambda: v.val, lambda: getattr(m, a.name), '.' + a.name))
            else:
                for f in t.members:
                    if not is_comp(f.type):
                        continue
                    if f.form == W.PLAIN or (f.form == W.OPTIONAL and v[f.name] is not None):
                        opts.append((f.type, lambda f=f: v[f.name], lambda f=f: getattr(m, f.name), '.' + f.name))
                    elif f.form not in (W.PLAIN, W.OPTIONAL):
                        for i in range(min(len(v[f.name]), 3)):
                            opts.append((f.type, lambda f=f, i=i: v[f.name][i], lambda f=f, i=i: getattr(m, f.name)[i], '.%s[%d]' % (f.name, i)))
            if not opts:
                break
            ty, gv, gm, p = r.choice(opts)
            v, m, t = gv(), gm(), W.resolve(ty)
            path += p
        return t, v, m, path


class UVal(object):
    """Reference state of a union."""

    def __init__(self, arm, val):
        self.arm, self.val = arm, val


def default(t):
    t = W.resolve(t)
    if isinstance(t, W.Union):
        return UVal(t.arms[0].name, default(t.arms[0].type))
    if isinstance(t, W.Struct):
        v = {}
        bounds = set(m.bound for m in t.members if m.form == W.EXT_ARR)
        for m in t.members:
            if m.form == W.PLAIN:
                if m.name not in bounds:
                    v[m.name] = default(m.type)
            elif m.form == W.OPTIONAL:
                v[m.name] = None
            elif m.type is W.BYTE:
                v[m.name] = b'\0' * m.size if m.form == W.FIXED_ARR else b''
            else:
                v[m.name] = [default(m.type) for _ in range(m.size)] if m.form == W.FIXED_ARR else []
        return v
    return S.default_value(t)


def plain(t, v):
    """Reference state -> spec value."""
    t = W.resolve(t)
    if isinstance(t, W.Union):
        a = [x for x in t.arms if x.name == v.arm][0]
        return (v.arm, plain(a.type, v.val))
    if isinstance(t, W.Struct):
        res = {}
        for m in t.members:
            if m.name not in v:
                continue
            x = v[m.name]
            if x is None or isinstance(x, bytes):
                res[m.name] = x
            elif isinstance(x, list):
                res[m.name] = [plain(m.type, e) for e in x]
            else:
                res[m.name] = plain(m.type, x)
        return res
    return v


def sizes_ok(t, v):
    """False when arrays sharing a counter differ in length somewhere."""
    t = W.resolve(t)
    if isinstance(t, W.Union):
        a = W.union_arm(t, v)
        return sizes_ok(a.type, v[1]) if is_comp(a.type) else True
    if not isinstance(t, W.Struct):
        return True
    lens = {}
    for m in t.members:
        if m.form == W.EXT_ARR:
            lens.setdefault(m.bound, set()).add(len(v[m.name]))
        if is_comp(m.type) and m.name in v and v[m.name] is not None:
            for e in (v[m.name] if isinstance(v[m.name], list) else [v[m.name]]):
                if not sizes_ok(m.type, e):
                    return False
    return all(len(s) == 1 for s in lens.values())


def operation(r, t, v, m, mod):
    """One random public operation on composite (t, v, m).
    Returns (text, run on the real object, run on the reference)."""
    if isinstance(t, W.Union):
        a = r.choice(t.arms)
        cur = [x for x in t.arms if x.name == v.arm][0]
        k = r.random()
        if k < 0.5:
            x = r.choice([a.name, a.disc, a.name, a.disc, 'nope', 4242, None])

            def ref():
                for arm in t.arms:
                    if x in (arm.name, arm.disc):
                        if arm.name != v.arm:
                            v.arm, v.val = arm.name, default(arm.type)
                        return
                raise Bad('ProphyError')
            return 'discriminator = %r' % (x,), lambda: setattr(m, 'discriminator', x), ref
        if k < 0.6:
            def ref():
                if a.name != v.arm:
                    raise Bad('ProphyError')
            return 'read %s' % a.name, lambda: getattr(m, a.name), ref
        x = cand(r, a.type) if not is_comp(a.type) else r.choice([None, True, 1, {}])

        def ref():
            if is_comp(a.type) or a.name != v.arm:
                raise Bad('ProphyError')
            v.val = norm(a.type, x)
        return '%s = %r' % (a.name, x), lambda: setattr(m, a.name, x), ref
    bounds = set(f.bound for f in t.members if f.form == W.EXT_ARR)
    f = r.choice([f for f in t.members if f.name not in bounds] or [None])
    if f is None:
        return 'nothing', lambda: None, lambda: None
    name = f.name
    if f.form == W.PLAIN:
        x = cand(r, f.type) if not is_comp(f.type) else r.choice([None, True, 1, {}, 'x'])

        def ref():
            if is_comp(f.type):
                raise Bad('ProphyError')
            v[name] = norm(f.type, x)
        return '%s = %r' % (name, x), lambda: setattr(m, name, x), ref
    if f.form == W.OPTIONAL:
        if is_comp(f.type):
            x = r.choice([None, True, True, 1, False, {}, 'x'])

            def ref():
                if x is None:
                    v[name] = None
                elif x is True:
                    v[name] = default(f.type)
                else:
                    raise Bad('ProphyError')
        else:
            x = r.choice([None, cand(r, f.type), cand(r, f.type)])

            def ref():
                v[name] = None if x is None else norm(f.type, x)
        return '%s = %r' % (name, x), lambda: setattr(m, name, x), ref
    lim = limit(t, f)
    if f.type is W.BYTE:
        n = r.choice([0, 1, 2, 3, 5, (f.size or 2), (f.size or 2) + 1, (lim if lim and lim < 40000 else 4), (lim + 1 if lim and lim < 40000 else 4)])
        x = r.choice([bytes(r.randrange(256) for _ in range(n))] * 4 + ['abc', None, 5, [1], bytearray(b'ab')])

        def ref():
            if not isinstance(x, bytes) or (lim is not None and len(x) > lim):
                raise Bad('ProphyError')
            v[name] = x.ljust(f.size, b'\0') if f.form == W.FIXED_ARR else x
        return '%s = %r' % (name, x), lambda: setattr(m, name, x), ref
    arr = getattr(m, name)
    lst = v[name]
    n = len(lst)
    if r.random() < 0.05:
        x = r.choice([[], [1], None, 5])

        def ref():
            raise Bad('ProphyError')
        return '%s = %r' % (name, x), lambda: setattr(m, name, x), ref
    if is_comp(f.type):
        return comp_array_op(r, f, arr, lst, lim, mod)
    ops = ['set', 'setslice', 'get', 'sort']
    if f.form != W.FIXED_ARR:
        ops += ['append', 'insert', 'extend', 'remove', 'del', 'delslice', 'append', 'extend', 'insert']
    op = r.choice(ops)
    i = r.randint(-n - 2, n + 1)
    x = cand(r, f.type)

    def full(extra):
        if lim is not None and n + extra > lim:
            raise Bad('ProphyError')
    if op == 'append':
        def ref():
            y = norm(f.type, x)
            full(1)
            lst.append(y)
        return '%s.append(%r)' % (name, x), lambda: arr.append(x), ref
    if op == 'insert':
        def ref():
            y = norm(f.type, x)
            full(1)
            lst.insert(i, y)
        return '%s.insert(%d, %r)' % (name, i, x), lambda: arr.insert(i, x), ref
    if op == 'set':
        def ref():
            y = norm(f.type, x)
            if not -n <= i < n:
                raise Bad('IndexError')
            lst[i] = y
        return '%s[%d] = %r' % (name, i, x), lambda: arr.__setitem__(i, x), ref
    if op == 'get':
        s = rslice(r, n)
        if s.step == 0:
            s = slice(None)

        def run():
            got = [list(arr[s]), list(arr), len(arr)]
            if 0 <= i < n:
                got.append(arr[i])
            return got

        def ref():
            want = [lst[s], list(lst), n]
            if 0 <= i < n:
                want.append(lst[i])
            return want
        return 'read %s[%r]' % (name, s), run, ref
    if op == 'sort':
        return '%s.sort()' % name, lambda: arr.sort(), lambda: lst.sort()
    if op == 'remove':
        x = r.choice(lst) if lst and r.random() < 0.7 else 17

        def ref():
            if x not in lst:
                raise Bad('ValueError')
            lst.remove(x)
        return '%s.remove(%r)' % (name, x), lambda: arr.remove(x), ref
    if op == 'del':
        def ref():
            if not -n <= i < n:
                raise Bad('IndexError')
            del lst[i]
        return 'del %s[%d]' % (name, i), lambda: arr.__delitem__(i), ref
    if op == 'delslice':
        s = rslice(r, n)
        return 'del %s[%r]' % (name, s), lambda: arr.__delitem__(s), lambda: lst.__delitem__(s)
    k = r.choice([0, 1, 1, 2, 3, f.size or 2])
    xs = [S.rand_value(r, f.type) if r.random() < 0.93 else cand(r, f.type) for _ in range(k)]
    if lim is not None and lim < 300 and r.random() < 0.15:
        xs = [S.rand_value(r, f.type)] * (lim - n + r.choice([0, 1]))
    form = r.choice([list, list, tuple, iter])
    if op == 'extend':
        def ref():
            ys = [norm(f.type, x) for x in xs]
            full(len(ys))
            lst.extend(ys)
        return '%s.extend(%s of %r)' % (name, form.__name__, xs), lambda: arr.extend(form(xs)), ref
    s = rslice(r, n)
    if r.random() < 0.4 or f.form == W.FIXED_ARR:
        xs = [S.rand_value(r, f.type) if r.random() < 0.93 else cand(r, f.type) for _ in range(len(lst[s]))]

    def ref():
        ys = [norm(f.type, x) for x in xs]
        c = list(lst)
        try:
            c[s] = ys
        except ValueError:
            raise Bad(*LISTY)
        if f.form == W.FIXED_ARR and len(c) != n or lim is not None and len(c) > lim:
            raise Bad('ProphyError')
        lst[:] = c
    return '%s[%r] = %s of %r' % (name, s, form.__name__, xs), lambda: arr.__setitem__(s, form(xs)), ref


def comp_array_op(r, f, arr, lst, lim, mod):
    name, n = f.name, len(lst)
    ty = W.resolve(f.type)
    cls = getattr(mod, ty.name)
    ops = ['set', 'get']
    if f.form != W.FIXED_ARR:
        ops += ['add', 'add', 'addkw', 'extend', 'del', 'delslice']
    op = r.choice(ops)
    i = r.randint(-n - 2, n + 1)

    def full(extra):
        if lim is not None and n + extra > lim:
            raise Bad('ProphyError')
    if op == 'set':
        def ref():
            raise Bad(*LISTY)
        key = r.choice([0, slice(None)])
        return '%s[%r] = []' % (name, key), lambda: arr.__setitem__(key, []), ref
    if op == 'get':
        s = rslice(r, n)
        return 'read %s[%r]' % (name, s), lambda: [S.read(x, ty) for x in arr[s]] + [len(arr)], lambda: [plain(ty, x) for x in lst[s]] + [n]
    if op == 'add' or (op == 'addkw' and isinstance(ty, W.Union)):
        def ref():
            full(1)
            lst.append(default(ty))
        return '%s.add()' % name, lambda: arr.add() and None, ref
    if op == 'addkw':
        bounds = set(x.bound for x in ty.members if x.form == W.EXT_ARR)
        fs = [x for x in ty.members if x.name not in bounds]
        fs = r.sample(fs, min(len(fs), r.randint(1, 2))) if fs else []
        kw, refs = {}, []
        for x in fs:
            if is_comp(x.type):
                val = r.choice([None, {}, [1]]) if x.form == W.PLAIN else r.choice([None, True]) if x.form == W.OPTIONAL else [1]
            elif x.form in (W.PLAIN, W.OPTIONAL):
                val = cand(r, x.type)
            elif x.type is W.BYTE:
                val = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 3, x.size or 2, (x.size or 2) + 1])))
            else:
                val = [cand(r, x.type) if r.random() < 0.1 else S.rand_value(r, x.type) for _ in range(r.choice([0, 1, x.size or 2, x.size or 2, (x.size or 2) + 1]))]
            kw[x.name] = val

        def ref():
            full(1)
            e = default(ty)
            for x in fs:
                val = kw[x.name]
                lm = limit(ty, x) if x.form not in (W.PLAIN, W.OPTIONAL) else None
                if is_comp(x.type):
                    if x.form == W.OPTIONAL and (val is None or val is True):
                        e[x.name] = default(x.type) if val else None
                    else:
                        raise Bad(*LISTY)
                elif x.form == W.OPTIONAL:
                    e[x.name] = None if val is None else norm(x.type, val)
                elif x.form == W.PLAIN:
                    e[x.name] = norm(x.type, val)
                elif x.type is W.BYTE:
                    if lm is not None and len(val) > lm:
                        raise Bad('ProphyError')
                    e[x.name] = val.ljust(x.size, b'\0') if x.form == W.FIXED_ARR else val
                else:
                    ys = [norm(x.type, y) for y in val]
                    if x.form == W.FIXED_ARR and len(ys) != x.size or lm is not None and len(ys) > lm:
                        raise Bad('ProphyError')
                    e[x.name] = ys
            lst.append(e)
        return '%s.add(**%r)' % (name, kw), lambda: arr.add(**kw) and None, ref
    if op == 'extend':
        k = r.choice([0, 1, 2, f.size or 2])
        vals = [S.rand_value(r, ty) for _ in range(k)]
        alien = r.choice([None, 5, arr]) if r.random() < 0.2 else False

        def run():
            ms = []
            for x in vals:
                e = cls()
                S.fill(e, ty, x)
                ms.append(e)
            if alien is not False:
                ms.append(alien)
            arr.extend(r.choice([list, tuple, iter])(ms))

        def ref():
            if alien is not False:
                raise Bad('ProphyError', 'TypeError')
            full(k)
            lst.extend(state(ty, x) for x in vals)
        return '%s.extend(messages %r%s)' % (name, vals, '' if alien is False else ' and something else'), run, ref
    if op == 'del':
        def ref():
            if not -n <= i < n:
                raise Bad('IndexError')
            del lst[i]
        return 'del %s[%d]' % (name, i), lambda: arr.__delitem__(i), ref
    s = rslice(r, n)
    return 'del %s[%r]' % (name, s), lambda: arr.__delitem__(s), lambda: lst.__delitem__(s)


def state(t, v):
    """Spec value -> reference state."""
    t = W.resolve(t)
    if isinstance(t, W.Union):
        a = W.union_arm(t, v)
        return UVal(a.name, state(a.type, v[1]))
    if isinstance(t, W.Struct):
        res = {}
        for m in t.members:
            if m.name in v:
                x = v[m.name]
                if x is None or isinstance(x, bytes):
                    res[m.name] = x
                elif isinstance(x, list):
                    res[m.name] = [state(m.type, e) for e in x]
                else:
                    res[m.name] = state(m.type, x)
        return res
    return v


def strict(x):
    """Value together with its kind, so that 1 and 1.0, or b'' and '' in a set field, stay apart."""
    if isinstance(x, dict):
        return {k: strict(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [strict(v) for v in x]
    if isinstance(x, str):
        return x.encode() if x == '' else ('str', x)
    return x


def observe(m, t):
    return strict(S.read(m, t))


class Mismatch(Exception):
    pass


def step(r, a, log):
    """One operation on model a, checked; raises Mismatch."""
    t, v, m, path = a.walk(r)
    try:
        text, run, ref = operation(r, t, v, m, a.mod)
    except Bad:
        raise
    log.append(path.lstrip('.') + (': ' if path else '') + text)
    undo = copy.deepcopy(a.v)
    want = None
    try:
        want = ref()
        bad = None
    except Bad as e:
        bad = e.args
    try:
        got = run()
        exc = None
    except Exception as e:
        exc = e
    if bad:
        if exc is None:
            raise Mismatch('a rejected operation raises', 'the operation was accepted')
        if type(exc).__name__ not in bad and not (type(exc).__name__ == 'ProphyError'):
            raise Mismatch('a rejected operation raises ProphyError or the list error', repr(exc))
        del undo
    elif exc is not None:
        raise Mismatch('a legal operation succeeds', repr(exc))
    elif want is not None and strict(got) != strict(want):
        raise Mismatch('reads equal the reference', '%r, reference %r' % (got, want))


def compare(a, what='the state equals the reference model'):
    want = plain(a.t, a.v)
    try:
        got = observe(a.msg, a.t)
    except Exception as e:
        raise Mismatch('the message is readable', repr(e))
    if got != strict(want):
        raise Mismatch(what, '%r, reference %r' % (got, want))
    return want


def encodes(a, r):
    want = plain(a.t, a.v)
    e = r.choice('<>')
    try:
        b = a.msg.encode(e)
    except Exception as x:
        if not sizes_ok(a.t, want) and isinstance(x, prophy_error()):
            return
        raise Mismatch('a reachable message encodes', repr(x))
    if not sizes_ok(a.t, want):
        raise Mismatch('unequal arrays sharing a counter are refused by encode', b.hex())
    if b != W.encode_bytes(a.t, want, e):
        raise Mismatch('a reachable message encodes its state', '%s expected %s' % (b.hex(), W.encode_bytes(a.t, want, e).hex()))


def schemas(kind, idx, r):
    if kind == 'triples':
        defs, out = gen.triple_structs('T', r, 25)
        yield defs + out, out + S.composites(defs)
    else:
        for k in range(3):
            defs = S.rand_schema(r, S.Opts(max_members=r.choice([2, 4, 6]), n_structs=r.choice([2, 4, 6])))
            yield defs, S.composites(defs)


def c10(u, kind, idx):
    r = core.rng('c10', kind, idx)
    for defs, types in schemas(kind, idx, r):
        try:
            mod = pyunits.load(defs)
        except Exception as e:
            u.fail('prophyc accepts the schema', repr(e)[:300], schema=S.prophy_text(defs))
            continue
        for t in types:
            for rep in range(3):
                log = []
                try:
                    pair = []
                    for _ in range(2):
                        a = Model(mod, t)
                        a.v = default(t)
                        pair.append(a)
                    compare(pair[0], 'a fresh message holds the defaults')
                    for k in range(30):
                        a = pair[r.random() < 0.15]
                        if a is pair[1]:
                            log.append('on a second message:')
                        step(r, a, log)
                        for b in pair:
                            compare(b)
                        if r.random() < 0.15 or k == 29:
                            encodes(a, r)
                        u.ok((t.name, idx, rep, k))
                except Mismatch as x:
                    u.fail(x.args[0], x.args[1][:1500], schema=gen.schema_for(defs, t), type=t.name, operations=log)


# ------------------------------------------------------------------ C11
def c11(u, kind, idx):
    r = core.rng('c11', kind, idx)
    for defs, types in schemas(kind, idx, r):
        try:
            mod = pyunits.load(defs)
        except Exception as e:
            u.fail('prophyc accepts the schema', repr(e)[:300], schema=S.prophy_text(defs))
            continue
        for t in types:
            for rep in range(6):
                log = []
                try:
                    a, b = history(r, mod, t, 'a', log), history(r, mod, t, 'b', log)
                    before = plain(t, a.v)
                    if rep == 5 and isinstance(t, W.Struct):
                        extend_case(r, mod, t, log)
                    log.append('b.copy_from(a)')
                    try:
                        b.msg.copy_from(a.msg)
                    except Exception as x:
                        raise Mismatch('copy_from accepts a message of the same type', repr(x))
                    b.v = copy.deepcopy(a.v)
                    compare(a, 'the source is unchanged by copy_from')
                    compare(b, 'the copy equals the source')
                    for e in '<>':
                        res = []
                        for m in (a, b):
                            try:
                                res.append(m.msg.encode(e))
                            except prophy_error():
                                res.append('refused')
                        if res[0] != res[1]:
                            raise Mismatch('copies encode identically', '%r / %r' % tuple(res))
                    u.ok((t.name, repr(before)))
                    for k in range(8):
                        x, y, n = r.choice([(a, b, 'a'), (b, a, 'b')])
                        log.append('on %s:' % n)
                        try:
                            step(r, x, log)
                        except Mismatch:
                            raise SkipUnit()       # an API defect: C10 reports it
                        compare(y, 'mutating one message leaves the other untouched')
                    compare(a, 'both messages keep their own state')
                    compare(b, 'both messages keep their own state')
                    u.ok((t.name, rep, idx))
                except SkipUnit:
                    continue
                except Mismatch as x:
                    u.fail(x.args[0], x.args[1][:1500], schema=gen.schema_for(defs, t), type=t.name, operations=log)


def history(r, mod, t, name, log):
    a = Model(mod, t)
    a.v = default(t)
    if r.random() < 0.5:
        v = S.rand_value(r, t)
        try:
            S.fill(a.msg, t, v)
        except Exception:
            raise SkipUnit()
        a.v = state(t, v)
        log.append('%s filled with %r' % (name, v))
    for _ in range(r.choice([0, 0, 4, 10])):
        mark = len(log)
        try:
            step(r, a, log)
        except Mismatch:
            raise SkipUnit()
        log[mark] = 'on %s: %s' % (name, log[mark])
    try:
        compare(a)
    except Mismatch:
        raise SkipUnit()
    return a


class SkipUnit(Exception):
    pass


def extend_case(r, mod, t, log):
    """Elements copied by extend() of composite arrays are independent too."""
    for f in t.members:
        if f.form in (W.PLAIN, W.OPTIONAL, W.FIXED_ARR) or not is_comp(f.type):
            continue
        ty = W.resolve(f.type)
        src = Model(mod, ty)
        v = S.rand_value(r, ty)
        S.fill(src.msg, ty, v)
        src.v = state(ty, v)
        dst = getattr(mod, t.name)()
        arr = getattr(dst, f.name)
        log.append('%s.extend([element %r, same element])' % (f.name, v) if not f.size or f.size > 1 else '%s.extend([element %r])' % (f.name, v))
        arr.extend([src.msg, src.msg] if not f.size or f.size > 1 else [src.msg])
        got = [observe(x, ty) for x in arr]
        want = strict(plain(ty, src.v))
        if any(g != want for g in got):
            raise Mismatch('extend copies the elements', '%r / %r' % (got, want))
        for k in range(4):
            log.append('on the source element:')
            try:
                step(r, src, log)
            except Mismatch:
                raise SkipUnit()
            if any(observe(x, ty) != want for x in arr):
                raise Mismatch('elements added by extend() are independent of their source', '%r expected %r' % ([observe(x, ty) for x in arr], want))
        if len(arr) > 1:
            m0 = Model(mod, ty)
            m0.msg, m0.v = arr[0], state(ty, v)
            for k in range(4):
                log.append('on element 0:')
                try:
                    step(r, m0, log)
                except Mismatch:
                    raise SkipUnit()
                if observe(arr[1], ty) != want:
                    raise Mismatch('elements added by extend() are independent of one another', '%r expected %r' % (observe(arr[1], ty), want))
            if observe(src.msg, ty) != strict(plain(ty, src.v)):
                raise Mismatch('the source of extend() is independent of the elements', '')


def unit(u, prop, kind, idx):
    (c10 if prop == 'c10' else c11)(u, kind, idx)


def work(prop, triples=16, rand=40):
    for i in range(max(triples, rand)):
        if i < triples:
            yield unit, (prop, 'triples', i)
        if i < rand:
            yield unit, (prop, 'rand', i)
