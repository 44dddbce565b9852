"""Contracts on prophyc/patch.py (C17, and the designed failures of C13): every rule, for structs and unions of any number of
members with any names, and any parameters."""
import z3

from contracts.base import I, SimError, Unsupported, cx, i_term, sym, xform
from engine.sym import Name, SymInt, SymList, SymSeq, Tok
from engine.xform import Cand, LoopPlan

import prophyc.model as M  # noqa: E402
import prophyc.patch as P  # noqa: E402

ATTRS = ('name', 'type_name', 'definition', 'bound', 'size', 'greedy', 'optional', 'docstring', 'numeric_size', 'padding', 'discriminator')
# the others are worked out again after patching, or are comments
COMPARED = ('name', 'type_name', 'bound', 'size', 'greedy', 'optional', 'discriminator')
NODES = (M.Struct, M.Union, M.Enum, M.Typedef, M.Constant, M.Include)


REAL = {M.Struct: M.StructMember('a', 'b'), M.Union: M.UnionMember('a', 'b', '1'), M.Enum: M.EnumMember('a', '1')}


class StructStub(object):
    _mirror_of = M.Struct

    def __init__(self, name, members, docstring=None):
        self.name, self.members, self.docstring = name, members, docstring

    def sym_isinstance(self, cs):
        return M.Struct in [getattr(k, '_mirror_of', k) for k in cs]


def world():
    return xform.World(None, [(M.Struct, StructStub)])


class Env(object):
    def __init__(self, c, kind, W):
        self.kind, self.W = kind, W
        self.n = c.int('members', 0)
        self.nm, self.ix = z3.Function('name', I, I), z3.Function('index', I, I)
        self.writes, self.lax = [], False
        self.seq = SymSeq(self.n, lambda k: Mem(self, k), 'members')
        self.list = SymList([('seg', self.seq, z3.IntVal(0), self.n)])

    def has(self, p):
        return z3.And(self.at(p) >= 0, self.at(p) < self.n, self.nm(self.at(p)) == p.t)

    def at(self, p):
        return self.ix(p.t)

    def facts(self, i):
        """Names of the members are distinct and are no literals of the code."""
        cx().assume(z3.Implies(z3.And(i >= 0, i < self.n), z3.And(self.ix(self.nm(i)) == i, self.nm(i) >= 0)))

    def initial(self, a, i):
        if a == 'name':
            return Name(self.nm(i))
        if a in ('type_name', 'definition'):
            return Name(z3.Function(a, I, I)(i))
        return Tok('before', a, SymInt(i))


class Mem(object):
    """Member i of the patched message."""

    def __init__(self, env, i):
        self.__dict__.update(env=env, i=z3.simplify(i))
        env.facts(self.i)

    def cls(self):
        return {M.Struct: M.StructMember, M.Union: M.UnionMember, M.Enum: M.EnumMember}.get(self.env.kind, M.ModelNode)

    def sym_isinstance(self, cs):
        return any(issubclass(self.cls(), getattr(k, '_mirror_of', k)) for k in cs)

    def __getattr__(self, a):
        p = getattr(self.cls(), a, None)
        if isinstance(p, property) and a != 'type_name':
            return self.env.W.fn(p.fget)(self)
        if a == 'name' and not self.env.writes:
            return Name(self.env.nm(self.i))
        if a == '_value':
            a = 'type_name'
        if not self.env.lax and self.env.kind in REAL and not hasattr(REAL[self.env.kind], a):
            raise SimError('AttributeError', '%s of %s' % (a, self.cls().__name__))
        if a not in ATTRS:
            raise Unsupported('attribute %s of a member' % a)
        for b, i, v in reversed(self.env.writes):
            if a == b and cx().branch(i == self.i):
                return v
        return self.env.initial(a, self.i)

    def __setattr__(self, a, v):
        if a == '_value':
            a = 'type_name'
        if a not in ATTRS:
            raise Unsupported('write of attribute %s' % a)
        for lp in cx().loops.values():
            if lp.open:
                raise Unsupported('a loop writes members')
        self.env.writes.append((a, self.i, v))

    def sym_eq(self, o):
        return self.i == o.i if isinstance(o, Mem) and o.env is self.env else False


class Node(object):
    def __init__(self, env, name):
        self.__dict__.update(env=env, name=name, docstring=None, changed=[])
        if env.kind not in (M.Typedef, M.Constant):
            self.__dict__['members'] = env.list

    def __getattr__(self, a):
        if a == 'members':
            raise SimError('AttributeError', 'members of %s' % self.env.kind.__name__)
        raise AttributeError(a)

    def sym_isinstance(self, cs):
        return any(issubclass(self.env.kind, getattr(k, '_mirror_of', k)) for k in cs)

    def __setattr__(self, a, v):
        self.__dict__['changed'].append((a, v))
        self.__dict__[a] = v


class Params(object):
    """The words after the rule's name: any number of them."""

    def __init__(self, c):
        self.n = c.int('params', 0)
        self.words = [Name(c.int('word', 0), z3.Bool(c.fresh('isnum')), z3.Int(c.fresh('num'))) for _ in range(4)]

    def sym_len(self):
        return SymInt(self.n)

    def __bool__(self):
        return cx().branch(self.n != 0)

    def __len__(self):
        for k in range(5):
            if cx().branch(self.n == k):
                return k
        raise Unsupported('native len of many parameters')

    def __iter__(self):
        for k in range(5):
            if cx().branch(self.n == k):
                return iter(self.words[:k])
        return iter(self.words + [Name(cx().int('word', 0)) for _ in range(4)])     # at least five

    def __getitem__(self, i):
        if not isinstance(i, int) or not 0 <= i < 4:
            raise Unsupported('parameter %r' % (i,))
        if not cx().branch(self.n > i):
            raise SimError('IndexError')
        return self.words[i]


# the documented effect: rule -> (parameters, on a struct only, attributes of the member named by the first parameter)
FIELD = {
    'type': (2, lambda p: {'type_name': p[1]}),
    'dynamic': (2, lambda p: {'bound': p[1], 'size': None, 'greedy': False, 'optional': False}),
    'greedy': (1, lambda p: {'bound': None, 'size': None, 'greedy': True, 'optional': False}),
    'static': (2, lambda p: {'bound': None, 'size': p[1], 'greedy': False, 'optional': False}),
    'limited': (2, lambda p: {'bound': p[1], 'greedy': False, 'optional': False}),
}


def search():
    p = LoopPlan()
    p.search = True
    return p


def frame(c, name, env, want, j):
    """Exactly the stated attributes of member j differ from before."""
    env.lax = True
    q = c.int('any member', 0)
    c.assume(q < env.n)
    m = Mem(env, q)
    here = c.branch(q == j) if j is not None else False
    for a in COMPARED:
        got = getattr(m, a)
        w = want[a] if here and a in want else env.initial(a, q)
        sym.same('%s: %s' % (name, 'the member gets what the rule says' if here else 'other members stay as they are'), got, w,
                 info={'rule': name.split()[-1]})


def outcome(c, f, *a):
    try:
        return 'done', f(*a)
    except Unsupported:
        raise
    except SimError as e:
        return 'error', e
    except Exception as e:
        if type(e) is not Exception:
            raise Unsupported('raises %r' % e)
        return 'designed', e


def rule(name):
    fname = 'prophyc.patch rule %s' % name
    res = []
    for kind in NODES:
        W = world()
        f = W.fn(P._actions[name])

        def run(c, kind=kind, W=W, f=f):
            env = Env(c, kind, W)
            node = Node(env, Name(c.int('message', 0)))
            ps = Params(c)
            act = P.Action(name, ps)
            how, r = outcome(c, f, node, act)
            label = '%s: %s' % (fname, kind.__name__)
            c.record('%s: fails only by its designed exception' % label, 'refuted' if how == 'error' else 'proved', repr(r)[:300])
            p = ps.words
            struct = kind is M.Struct
            exists = env.has(p[0])
            for w in p:
                env.facts(env.at(w))
            if name in FIELD:
                np, want = FIELD[name]
                ok = z3.And(ps.n == np, exists) if struct else z3.BoolVal(False)
                if name == 'limited':
                    ok = z3.And(ok, env.has(p[1]), env.at(p[1]) < env.at(p[0]))
            elif name == 'insert':
                ok = z3.And(ps.n == 3, p[0].isnum) if struct else z3.BoolVal(False)
            elif name == 'remove':
                ok = z3.And(ps.n == 1, exists) if struct else z3.BoolVal(False)
            elif name == 'struct':
                ok = ps.n == 0 if kind is M.Union else z3.BoolVal(False)
            else:
                ok = z3.Or(ps.n == 1, z3.And(ps.n == 2, exists) if kind in (M.Struct, M.Union) else z3.BoolVal(False))
            if how != 'done':
                c.outcome = 'rejected'
                c.prove('%s: rejected only if it cannot be applied' % label, z3.Not(ok))
                return
            c.outcome = 'applied'
            c.prove('%s: rejected if it cannot be applied' % label, ok)
            if not c.feasible() or not c.branch(ok):
                return
            if name == 'struct':
                got = isinstance(r, StructStub) and isinstance(r.members, SymList)
                if not got:
                    raise Unsupported('result of the rule')
                sym.same('%s: keeps the name' % label, r.name, node.name)
                c.prove('%s: a member for each arm' % label, r.members.length() == env.n)
                q = c.int('any arm', 0)
                c.assume(q < env.n)
                m = r.members.seq().elem(q)
                for a, w in (('name', Name(env.nm(q))), ('type_name', env.initial('type_name', q)),
                             ('bound', None), ('size', None), ('greedy', False), ('optional', False)):
                    sym.same('%s: arms become plain members' % label, getattr(m, a), w)
                frame(c, label, env, {}, None)
                return
            if r is not node:
                raise Unsupported('the rule returns another node')
            renamed = name == 'rename' and c.branch(ps.n == 1)
            sym.same('%s: the message name' % label, node.name, p[0] if renamed else node.__dict__['name'] if not node.changed else Tok('kept'))
            ml = node.__dict__.get('members', env.list)
            orig = SymList([('seg', env.seq, z3.IntVal(0), env.n)])
            if name == 'insert':
                v = p[0].num
                pos = z3.If(v < 0, z3.If(v + env.n < 0, z3.IntVal(0), v + env.n), z3.If(v > env.n, env.n, v))
                c.prove('%s: one member more' % label, ml.length() == env.n + 1)
                x = ml.seq().elem(z3.simplify(pos))
                if isinstance(x, Mem):
                    c.record('%s: at the given index' % label, 'refuted', 'another member')
                    return
                for a, w in (('name', p[1]), ('type_name', p[2]), ('bound', None), ('size', None), ('greedy', False), ('optional', False)):
                    sym.same('%s: a plain member' % label, getattr(x, a), w)
                q = c.int('position', 0)
                c.assume(z3.And(q < env.n + 1, q != pos))
                y = ml.seq().elem(q)
                sym.same('%s: the others in their order' % label, y, Mem(env, z3.If(q < pos, q, q - 1)))
                frame(c, label, env, {}, None)
            elif name == 'remove':
                j = env.at(p[0])
                c.prove('%s: one member less' % label, ml.length() == env.n - 1)
                q = c.int('position', 0)
                c.assume(q < env.n - 1)
                if c.feasible():
                    sym.same('%s: the others in their order' % label, ml.seq().elem(q), Mem(env, z3.If(q < j, q, q + 1)))
                frame(c, label, env, {}, None)
            else:
                sym.same('%s: the same members' % label, ml, orig)
                if name in FIELD:
                    frame(c, label, env, FIELD[name][1](p), env.at(p[0]))
                elif renamed:
                    frame(c, label, env, {}, None)
                else:
                    frame(c, label, env, {'name': p[1]}, env.at(p[0]))
        able = {'struct': (M.Union,), 'rename': NODES}.get(name, (M.Struct,))
        res.append(xform.verify('%s (%s)' % (fname, kind.__name__), run, {'*': search()},
                                ('applied', 'rejected') if kind in able else ('rejected',)))
    return res


def rules():
    documented = ('type', 'insert', 'remove', 'greedy', 'static', 'limited', 'dynamic', 'struct', 'rename')
    missing = [n for n in documented if n not in P._actions]
    res = [r for n in documented if n in P._actions for r in rule(n)]
    if missing:
        r = xform.Result('prophyc.patch rules')
        r.solver_s = 0
        r.obs = [('prophyc.patch: rule %s is known' % n, 'unknown', 'not in _actions', None, None) for n in missing]
        res.append(r)
    return res


class Table(object):
    """Contract of the rules: a known rule turns a node into the next one, or fails."""

    def __init__(self, known):
        self.known = known

    def get(self, action, default=None):
        return self.step if cx().branch(self.known(action.t)) else default

    def __contains__(self, action):
        return cx().branch(self.known(action.t))

    def __getitem__(self, action):
        if not cx().branch(self.known(action.t)):
            raise SimError('KeyError')
        return self.step

    def step(self, node, act):
        if not isinstance(node, Tok) or node.name_ != 'after' or not isinstance(act, Rule):
            raise Unsupported('rule applied to %r' % (node,))
        if not cx().entails(i_term(node.args_[0]) == act.k):
            cx().record('prophyc.patch._apply: rules are applied in their order', 'unknown', repr((node, act.k)))
            raise sym.PathEnd('order')
        if cx().choose('the rule fails'):
            raise Exception('rule')
        return after(act.k + 1)


class Rule(object):
    def __init__(self, k, act):
        self.k, self.action, self.params = z3.simplify(k), Name(act(k)), ()


def after(k):
    return Tok('after', SymInt(z3.simplify(k)), **{'name': Name(z3.Int('message'))})


def apply():
    """_apply: the rules of a message one after another; an unknown rule fails."""
    fname = 'prophyc.patch._apply'
    W = xform.World(None, [(P._actions, Table(z3.Function('known', I, z3.BoolSort())))])
    f = W.fn(P._apply)
    plan = LoopPlan(lambda lp: [Cand('the node after k rules', after)])
    plan.search = True

    def run(c):
        n = c.int('rules', 1)
        act, known = z3.Function('action', I, I), z3.Function('known', I, z3.BoolSort())
        rules_ = SymSeq(n, lambda k: Rule(k, act), 'rules')
        how, r = outcome(c, f, after(z3.IntVal(0)), rules_)
        c.record('%s: fails only by a designed exception' % fname, 'refuted' if how == 'error' else 'proved', repr(r)[:300])
        c.outcome = how
        if how == 'done':
            sym.same('%s: all rules in their order' % fname, r, after(n))
            q = c.int('any rule', 0)
            c.assume(q < n)
            c.prove('%s: every rule is known' % fname, known(act(q)))
    return xform.verify(fname, run, {'*': plan}, ('done', 'designed'))


class ListInv(object):
    """A list before iteration k of a loop."""

    def __init__(self, lst, at):
        self.obj, self.at = lst, at

    def entry(self, lp):
        self.check(lp, z3.IntVal(0), 'holds on entry')

    def check(self, lp, k, what):
        c, a, b = cx(), self.obj.seq(), self.at(k).seq()
        q = c.int('q')
        ok = c.entails(a.n == b.n) and sym.summar_formula(lambda: sym.value_eq(a.elem(q), b.elem(q)), z3.And(q >= 0, q < a.n))
        c.record('%s: the list %s' % (lp.key, what), 'proved' if ok else 'unknown', repr(self.obj))

    def havoc(self, lp):
        self.obj.segs = self.at(lp.k).segs

    def close(self, lp):
        self.check(lp, z3.simplify(lp.k + 1), 'is kept')


class Message(object):
    def __init__(self, i, nm):
        self.i, self.name = z3.simplify(i), Name(nm(i))

    def sym_eq(self, o):
        return self.i == o.i if isinstance(o, Message) else False


class Rules(object):
    def __init__(self, t):
        self.t = t


class Patches(object):
    def __init__(self, has):
        self.has = has

    def get(self, name, default=None):
        return Rules(name.t) if cx().branch(self.has(name.t)) else default

    def __contains__(self, name):
        return cx().branch(self.has(name.t))

    def __getitem__(self, name):
        if not cx().branch(self.has(name.t)):
            raise SimError('KeyError')
        return Rules(name.t)


def messages():
    """patch(): messages with rules are replaced by what _apply makes of them, the others stay; absent messages are ignored."""
    fname = 'prophyc.patch.patch'

    def applied(node, rules_):
        if not isinstance(node, Message) or not isinstance(rules_, Rules):
            raise Unsupported('_apply of %r' % (node,))
        cx().prove('%s: the rules of the message' % fname, rules_.t == node.name.t)
        return Tok('patched', SymInt(node.i))
    W = xform.World(None, [(P._apply, applied)])
    f = W.fn(P.patch)
    plan = search()

    def run(c):
        n = c.int('messages', 0)
        nm, has = z3.Function('name', I, I), z3.Function('has rules', I, z3.BoolSort())
        orig = SymSeq(n, lambda k: Message(k, nm), 'messages')

        def new(k):
            return Tok('patched', SymInt(k)) if cx().branch(has(nm(k))) else Message(k, nm)
        new_ = SymSeq(n, new, 'patched')
        lst = SymList([('seg', orig, z3.IntVal(0), n)])
        plan.heap = lambda lp: [ListInv(lst, lambda k: SymList([('seg', new_, z3.IntVal(0), k), ('seg', orig, k, n)]))]
        how, r = outcome(c, f, lst, Patches(has))
        c.outcome = how
        c.record('%s: does not fail by itself' % fname, 'refuted' if how != 'done' else 'proved', repr(r)[:300])
        if how == 'done':
            c.prove('%s: as many messages' % fname, lst.length() == n)
            q = c.int('any message', 0)
            c.assume(q < n)
            sym.same('%s: just the named messages change' % fname, lst.seq().elem(q), new(q))
    return xform.verify(fname, run, {'*': plan}, ('done',))
