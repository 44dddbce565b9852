"""Contracts on prophyc/model.py: size, alignment, padding and stiffness of every node (C04)."""
import z3

from contracts.base import B, I, Unsupported, cx, i_term, is_align, sym, xform
from engine.heap import Heap, StoreInv
from engine.sym import SymBool, SymInt, SymList, SymSeq, b_term
from engine.xform import Cand, LoopPlan

import prophyc.model as M  # noqa: E402

# the documented sizes of the wire format, written down independently of the code
SIZES = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'r32': 4, 'r64': 8, 'byte': 1}
PLAIN, OPTIONAL, FIXED, LIMITED, DYNAMIC, GREEDY = range(6)

_W = None


def pad(n, a):
    """Spec: bytes from n up to the next multiple of a (1, 2, 4 or 8)."""
    if z3.is_int_value(a):
        return z3.IntVal(0) if a.as_long() == 1 else (-n) % a
    return z3.If(a == 1, z3.IntVal(0), z3.If(a == 2, (-n) % 2, z3.If(a == 4, (-n) % 4, (-n) % 8)))


_X, _Y = z3.Int('X?'), z3.Int('Y?')


def once(memo, key, build, *args):
    """build(*args), from a formula built once and substituted afterwards."""
    if key not in memo:
        memo[key] = build(*(_X, _Y)[:len(args)])
    return z3.substitute(memo[key], *[(v, i_term(a)) for v, a in zip((_X, _Y), args)])


class Table(object):
    """BUILTIN_SIZES indexed by the (symbolic) type name of a node: TypeName(t) is the name number t."""

    def __init__(self, real):
        self.real = real

    def __contains__(self, k):
        if isinstance(k, TypeName):
            return cx().branch(k.known)
        return k in self.real

    def __getitem__(self, k):
        if not isinstance(k, TypeName):
            return self.real[k]
        t = z3.IntVal(-1)
        for no, name in enumerate(sorted(SIZES)):
            t = z3.If(k.no == no, z3.IntVal(self.real[name]), t)
        return SymInt(t)


class TypeName(object):
    def __init__(self, no, known):
        self.no, self.known = no, known

    def __eq__(self, o):
        raise Unsupported('comparison of a type name')
    __hash__ = None


def name_size(no):
    """Spec: the size of the built-in type number no."""
    t = z3.IntVal(1)
    for k, name in enumerate(sorted(SIZES)):
        t = z3.If(no == k, z3.IntVal(SIZES[name]), t)
    return t


def world():
    global _W
    if _W is None:
        _W = xform.World(None, [(M.BUILTIN_SIZES, Table(M.BUILTIN_SIZES))])
    return _W


def kinds(x, cs):
    return any(issubclass(x, k) for k in cs if isinstance(k, type))


class Node(object):
    """What a member's type resolves to: node k of the typedef chain of member i (the chain has L(i) typedefs)."""

    def __init__(self, env, i, k, ends=False):
        self.env, self.i, self.k, self.ends = env, i, z3.simplify(k), ends

    def __bool__(self):
        return not self.ends or cx().branch(self.k <= self.env.L(self.i))

    def real(self):
        e = self.env
        if self.ends and cx().branch(self.k > e.L(self.i)):
            return type(None)       # past the typedef of a built-in type
        if cx().branch(self.k < e.L(self.i)):
            return M.Typedef
        for cls, no in ((M.Struct, 0), (M.Union, 1), (M.Enum, 2)):
            if cx().branch(e.T(self.i) == no):
                return cls
        return M.Typedef            # a typedef of a built-in type

    def sym_isinstance(self, cs):
        return kinds(self.real(), cs)

    @property
    def definition(self):
        if self.ends:
            return Node(self.env, self.i, self.k + 1, True)
        if cx().branch(self.k < self.env.L(self.i)):
            return Node(self.env, self.i, self.k + 1)
        return None

    @property
    def type_name(self):
        if self.real() is not M.Typedef or cx().branch(self.k < self.env.L(self.i)):
            raise Unsupported('type name of an inner node')
        return TypeName(self.env.no(self.i), z3.BoolVal(True))

    def composite(self):
        if self.real() not in (M.Struct, M.Union):
            raise Unsupported('layout of a typedef')

    @property
    def byte_size(self):
        self.composite()
        return SymInt(self.env.sz(self.i))

    @property
    def alignment(self):
        self.composite()
        return SymInt(self.env.al(self.i))

    @property
    def kind(self):
        if self.real() is not M.Struct:
            raise Unsupported('kind of a node that is not a struct')
        return SymInt(self.env.skind(self.i))

    @property
    def lowermost_typedef(self):
        raise Unsupported('lowermost typedef of a node')

    def sym_eq(self, o):
        return isinstance(o, Node) and z3.And(self.i == o.i, self.k == o.k)

    name = 'a node'


class Env(object):
    """Members of one struct or union: arbitrary number, arbitrary types."""

    def __init__(self, c, n, fname, arms=False):
        self.n, self.arms, self.memo = n, arms, {}
        F = z3.Function
        self.L, self.T, self.no, self.sz, self.al, self.skind = (F(x, I, I) for x in
                                                                 ('chain', 'term', 'tname', 'tsize', 'talign', 'tkind'))
        self.direct = F('builtin', I, B)
        self.shape, self.N, self.kind = F('shape', I, I), F('count', I, I), F('kind', I, I)
        # spec: size and alignment of the member's type, and of the member itself
        self.ts, self.ta, self.ws, self.wa = (F(x, I, I) for x in ('TS', 'TA', 'WS', 'WA'))
        self.heap = Heap(c, n, {'byte_size': F('byte_size0', I, I), 'alignment': F('alignment0', I, I),
                                'padding': F('padding0', I, I)})
        self.heap.name = fname
        self.heap.stages = [
            ('each member gets the size and alignment of its type', {'byte_size': self.ts, 'alignment': self.ta}, self.defs),
            ('each member gets the size and alignment of its field', {'byte_size': self.ws, 'alignment': self.wa}, self.defs)]
        self.members = SymSeq(n, lambda i: Member(self, i), 'members')

    def defs(self, i):
        """The documented size and alignment of member i."""
        size = z3.If(self.direct(i), name_size(self.no(i)), z3.If(self.T(i) <= 1, self.sz(i), z3.If(
            self.T(i) == 2, z3.IntVal(4), name_size(self.no(i)))))
        align = z3.If(self.direct(i), name_size(self.no(i)), z3.If(self.T(i) <= 1, self.al(i), z3.If(
            self.T(i) == 2, z3.IntVal(4), name_size(self.no(i)))))
        s = self.shape(i)
        return [self.ts(i) == size, self.ta(i) == align,
                self.wa(i) == z3.If(z3.And(s == OPTIONAL, self.ta(i) < 4), z3.IntVal(4), self.ta(i)),
                self.ws(i) == z3.If(z3.Or(s == DYNAMIC, s == GREEDY), z3.IntVal(0), z3.If(
                    s == OPTIONAL, self.ts(i) + self.wa(i), z3.If(z3.Or(s == FIXED, s == LIMITED),
                                                                  self.ts(i) * self.N(i), self.ts(i))))]

    def rules(self, i):
        """What the previous stages guarantee about member i: its type is laid out, the composability rules (C12) hold."""
        is_struct = z3.And(z3.Not(self.direct(i)), self.T(i) == 0)
        r = [self.L(i) >= 0, self.T(i) >= 0, self.T(i) <= 3, self.no(i) >= 0, self.no(i) < len(SIZES),
             is_align(self.al(i)), self.sz(i) >= 0, pad(self.sz(i), self.al(i)) == 0,
             self.shape(i) >= 0, self.shape(i) <= (PLAIN if self.arms else GREEDY), self.N(i) >= 1,
             self.skind(i) >= 0, self.skind(i) <= 2,
             self.kind(i) == z3.If(is_struct, self.skind(i), z3.IntVal(0)),
             z3.Implies(self.kind(i) != 0, z3.Or(self.shape(i) == PLAIN, self.shape(i) == DYNAMIC, self.shape(i) == GREEDY)),
             z3.Implies(z3.Or(self.kind(i) == 2, self.shape(i) == GREEDY), i == self.n - 1),
             z3.Implies(self.kind(i) == 2, self.shape(i) == PLAIN)]
        return r + ([self.kind(i) == 0] if self.arms else [])

    def lemma(self, i):
        """Consequences of rules and defs that the later stages need (proved by member_lemma)."""
        return [is_align(self.wa(i)), self.ws(i) >= 0, self.kind(i) >= 0, self.kind(i) <= 2, self.shape(i) >= 0,
                self.shape(i) <= GREEDY, z3.Implies(self.dynamic(i), pad(self.ws(i), self.wa(i)) == 0),
                z3.Implies(z3.Or(self.kind(i) == 2, self.shape(i) == GREEDY), i == self.n - 1)]

    def facts(self, i):
        if self.heap.base['byte_size'] is self.ws:
            f = once(self.memo, 'lemma', lambda i: z3.And(*self.lemma(i)), i)
        else:
            f = once(self.memo, 'rules', lambda i: z3.And(*self.rules(i)), i)
        cx().assume(z3.Implies(z3.And(i >= 0, i < self.n), f))

    def ends_block(self, i):
        return z3.Or(self.kind(i) == 1, self.shape(i) == DYNAMIC, self.shape(i) == GREEDY)

    def dynamic(self, i):
        return z3.Or(self.kind(i) != 0, self.shape(i) == DYNAMIC, self.shape(i) == GREEDY)


def member_lemma():
    def run(c):
        env = Env(c, c.int('members', 1), 'lemma')
        i = c.int('i', 0)
        c.assume(i < env.n)
        for f in env.rules(i) + env.defs(i):
            c.assume(f)
        for k, f in enumerate(env.lemma(i)):
            c.prove('lemma member %d: %s' % (k, str(f)[:60]), f)
        c.outcome = 'return'
    return [xform.verify('lemma member', run, {}, ('return',))]


class Member(object):
    name = 'm'
    docstring = None

    def __init__(self, env, i):
        i = z3.simplify(i)
        self.__dict__.update(env=env, i=i)
        env.facts(i)

    def sym_isinstance(self, cs):
        return kinds(M.UnionMember if self.env.arms else M.StructMember, cs)

    def __getattr__(self, a):
        env, i = self.env, self.i
        c = cx()
        if a in env.heap.base:
            return env.heap.read(a, i)
        if a == 'definition':
            return None if c.branch(env.direct(i)) else Node(env, i, z3.IntVal(0))
        if a == 'type_name':
            return TypeName(env.no(i), env.direct(i))
        if a == 'kind':
            return SymInt(env.kind(i))
        if env.arms:
            raise Unsupported('attribute %s of a union arm' % a)
        sh = env.shape(i)
        if a == 'bound':
            return 'sizer' if c.branch(z3.Or(sh == LIMITED, sh == DYNAMIC)) else None
        if a == 'size':
            return 'extent' if c.branch(z3.Or(sh == LIMITED, sh == FIXED)) else None
        if a == 'numeric_size':
            return SymInt(env.N(i)) if c.branch(z3.Or(sh == LIMITED, sh == FIXED)) else None
        if a in ('greedy', 'optional'):
            return SymBool(sh == (GREEDY if a == 'greedy' else OPTIONAL))
        p = getattr(M.StructMember, a, None)
        if isinstance(p, property):
            return world().fn(p.fget)(self)
        raise Unsupported('attribute %s of a member' % a)

    def __setattr__(self, a, v):
        self.env.heap.write(a, self.i, v)

    def sym_eq(self, o):
        return isinstance(o, Member) and self.i == o.i


class Owner(object):
    """The struct or union under evaluation."""
    name = 'X'

    def __init__(self, cls, members):
        self.cls, self.members = cls, members

    def sym_isinstance(self, cs):
        return kinds(self.cls, cs)


def chain_plan(lp):
    """Typedef chains: before iteration k the local is node k of the chain."""
    v = [x for x in lp.env.values() if isinstance(x, Node)]
    if not v:
        return []
    n = v[0]
    return [Cand('node k of the typedef chain', lambda k: Node(n.env, n.i, k, n.ends))]


def chain_bound(lp):
    v = [x for x in lp.env.values() if isinstance(x, Node)]
    if not v:
        raise Unsupported('while loop over something else')
    return v[0].env.L(v[0].i)


def sizes_plan(extra=None, heap=None):
    p = LoopPlan(whiles=True)
    p.cands = lambda lp: chain_plan(lp) if lp.seq is None else (extra(lp) if extra else [])
    p.inv = lambda lp, k: k <= chain_bound(lp) if lp.seq is None else z3.BoolVal(True)
    p.measure = chain_bound
    p.heap = lambda lp: [] if lp.seq is None or heap is None else heap(lp)
    return p


def mx(a, b):
    return z3.If(a >= b, a, b)


def struct_sizes():
    """evaluate_sizes for a struct with any number of members of any types."""
    f = world().fn(M.evaluate_sizes)
    fname = 'prophyc.model.evaluate_sizes (struct)'
    plan = sizes_plan()
    splan = LoopPlan()
    memo = {}

    def run(c):
        n = c.int('members', 1)
        env = Env(c, n, fname)
        env.memo = memo
        node = Owner(M.Struct, env.members)
        F = z3.Function
        Off, Bk, FA, last, cnt, b = (F(x, I, I) for x in ('end', 'block', 'FA', 'last', 'cnt', 'bound'))
        A, wA, wD, anyD = z3.Int('A'), z3.Int('wA'), z3.Int('wD'), z3.Bool('anyD')
        dl, ws, wa = env.ends_block, env.ws, env.wa
        c.assume(z3.And(Off(0) == 0, last(0) == 0, cnt(0) == 0, b(0) == 0, Bk(n) == 1))
        NB = cnt(n) + z3.If(last(n) < n, z3.IntVal(1), z3.IntVal(0))
        c.assume(z3.Implies(last(n) < n, b(cnt(n) + 1) == n))

        def start(x):
            return z3.Or(x == 0, dl(x - 1))

        def inside(x):
            return z3.And(x >= 0, x < n)

        def layout(x):
            return once(memo, 'layout', layout_, x)

        def layout_(x):
            """Definitions of the ghost functions at member x, and the lemmas about them."""
            return z3.Implies(inside(x), z3.And(
                Bk(x) == mx(wa(x), z3.If(dl(x), z3.IntVal(1), Bk(x + 1))), is_align(Bk(x)), Bk(x) <= A,
                FA(x) == z3.If(z3.And(x > 0, start(x)), Bk(x), wa(x)), is_align(FA(x)), Off(x) >= 0, wa(x) <= A, z3.Implies(env.dynamic(x), anyD), *env.lemma(x)))

        def step(x):
            return once(memo, 'step', step_, x)

        def step_(x):
            """The end of member x; lemma dynamic end: no padding after a dynamic member at least as aligned as the next."""
            return z3.And(z3.Implies(inside(x), Off(x + 1) == Off(x) + pad(Off(x), FA(x)) + ws(x)), z3.Implies(
                z3.And(inside(x), inside(x - 1), env.dynamic(x - 1), FA(x - 1) >= FA(x)), pad(Off(x), FA(x)) == 0))

        ghost = [n >= 1, Off(0) == 0, Bk(n) == 1, is_align(A), inside(wA), wa(wA) == A, z3.Implies(anyD, z3.And(
            inside(wD), env.dynamic(wD))), layout(wA), layout(wD), layout(n - 1), layout(n - 2), layout(z3.IntVal(0))]

        def facts(*xs):
            for x in xs:
                if env.heap.base['byte_size'] is ws:
                    cx().assume(layout(x))
                else:
                    env.facts(x)

        # ---- blocks
        def split(k):
            facts(k)
            cx().assume(once(memo, 'split', split_, k))

        def split_(k):
            return z3.And(z3.Implies(inside(k), z3.And(
                last(k + 1) == z3.If(dl(k), k + 1, last(k)), cnt(k + 1) == cnt(k) + z3.If(dl(k), z3.IntVal(1), z3.IntVal(0)),
                z3.Implies(dl(k), b(cnt(k) + 1) == k + 1))), z3.Implies(z3.And(k >= 0, k <= n), z3.And(b(cnt(k)) == last(k), last(k) <= k, last(k) >= 0,
                                                                 cnt(k) >= 0)))

        def block(j):
            return once(memo, 'block', block_, j)

        def in_block(j, x):
            return once(memo, 'in_block', in_block_, j, x)

        def block_(j):
            """lemma blocks for block j"""
            return z3.Implies(z3.And(j >= 0, j < NB), z3.And(b(j) >= 0, b(j) < b(j + 1), b(j + 1) <= n, start(b(j)),
                                                             b(j) <= W(j), W(j) < b(j + 1), wa(W(j)) == Bk(b(j))))

        def in_block_(j, x):
            """lemma blocks for member x of block j"""
            return z3.Implies(z3.And(j >= 0, j < NB, b(j) <= x, x < b(j + 1)), z3.And(
                wa(x) <= Bk(b(j)), z3.Implies(b(j) < x, z3.Not(dl(x - 1)))))
        W = F('witness', I, I)
        blocks = SymSeq(NB, lambda j: (cx().assume(block(j)), SymList([('seg', env.members, b(j), b(j + 1))]))[1], 'blocks')
        split(n)
        c.assume(b(NB) == n)

        def scands(lp):
            return [Cand('the members since the last dynamic one', lambda k: (split(k), SymList(
                        [('seg', env.members, last(k), z3.simplify(k))]))[1]),
                    Cand('the blocks so far', lambda k: (split(k), SymList([('seg', blocks, z3.IntVal(0), cnt(k))]))[1])]
        splan.cands = scands

        def aggs(kind, m, i):
            if kind == 'any':
                return [(anyD, wD, layout(i))]
            if kind == 'max' and cur[0] is not None:
                j = cur[0]
                return [(Bk(b(j)), W(j) - b(j), z3.And(block(j), in_block(j, b(j) + i), layout(b(j) + i), layout(b(j))))]
            return [(A, wA, z3.And(layout(i), layout(wA)))]
        c.agg_specs = aggs
        cur = [None]

        # ---- offsets
        def P(x):
            """Padding after member x: up to the next member; after a dynamic one, the alignment to apply (negative)."""
            nxt = FA(x + 1)
            return z3.If(env.dynamic(x), z3.If(FA(x) < nxt, -nxt, z3.IntVal(0)), pad(Off(x + 1), nxt))

        def off(k):
            facts(k, k + 1, k - 1)
            cx().assume(step(k))
            return Off(k)

        def over_members(lp):
            return isinstance(lp.seq.elem(lp.k), Member)

        def ocands(lp):
            if not over_members(lp):
                return []
            return [Cand('the end of member k - 1', lambda k: SymInt(off(k))),
                    Cand('the member before', lambda k: Member(env, z3.simplify(z3.If(k >= 1, k - 1, z3.IntVal(0)))))]

        def store(lp):
            base = dict(env.heap.base)
            if over_members(lp):
                if not getattr(lp, 'picked', False):
                    lp.picked = True
                    off(lp.k)
                    if cx().branch(inside(lp.k)):
                        sym.pick(FA(lp.k), sym.ALIGNS)

                def spec(k):
                    return {'padding': lambda x: (facts(x, x + 1), z3.If(x < k - 1, P(x), z3.If(
                        z3.And(k == 1, x == 0), z3.IntVal(0), base['padding'](x))))[-1]}
                return [StoreInv(env.heap, spec)]

            def spec(j):
                cur[0] = z3.simplify(j + 1)

                def al(x):
                    facts(x)
                    for q in (z3.IntVal(0), j, j + 1):
                        cx().assume(z3.And(block(q), in_block(q, x)))
                        facts(b(q))
                    return z3.If(z3.And(x > 0, x < b(j + 1), start(x)), Bk(x), base['alignment'](x))
                return {'alignment': al}

            def after():
                cur[0] = None
                return {'alignment': FA}, ghost
            return [StoreInv(env.heap, spec, after)]
        fresh = sizes_plan(ocands, store)
        plan.cands, plan.inv, plan.heap, plan.measure = fresh.cands, fresh.inv, fresh.heap, fresh.measure
        f([node])
        c.outcome = 'return'
        q = c.int('any member', 0)
        c.assume(q < n)
        facts(q, q + 1, n - 1, n - 2)
        d = node.__dict__
        c.prove('%s: size of a member' % fname, i_term(env.heap.read('byte_size', q)) == ws(q))
        c.prove('%s: alignment of a member' % fname, i_term(env.heap.read('alignment', q)) == FA(q))
        c.prove('%s: alignment is the greatest of the members' % fname, i_term(d['alignment']) == A)
        if c.branch(q < n - 1):
            c.prove('%s: padding after a member' % fname, i_term(env.heap.read('padding', q)) == P(q))
        c.prove('%s: size is the end of the last member, padded' % fname, i_term(d['byte_size']) == Off(n) + pad(Off(n), A))
        lastp = i_term(env.heap.read('padding', z3.simplify(n - 1)))
        c.prove('%s: padding of the last member, fixed struct' % fname, z3.Implies(z3.Not(anyD), lastp == pad(Off(n), A)))
        c.prove('%s: padding of the last member, dynamic struct' % fname, z3.Implies(anyD, z3.Or(
            lastp == -A, z3.And(lastp == 0, FA(n - 1) == A, pad(ws(n - 1), A) == 0))))
    return [xform.verify(fname, run, {'evaluate_sizes': plan, 'split_after': splan}, ('return',))]


def empty_struct():
    f = world().fn(M.evaluate_sizes)
    fname = 'prophyc.model.evaluate_sizes (empty struct)'

    def run(c):
        node = Owner(M.Struct, [])
        f([node])
        c.outcome = 'return'
        c.prove('%s: size 0, alignment 1' % fname, z3.And(i_term(node.byte_size) == 0, i_term(node.alignment) == 1))
    return [xform.verify(fname, run, {'evaluate_sizes': LoopPlan()}, ('return',))]


def union_sizes():
    f = world().fn(M.evaluate_sizes)
    fname = 'prophyc.model.evaluate_sizes (union)'
    plan = sizes_plan()

    def run(c):
        n = c.int('arms', 1)
        env = Env(c, n, fname, arms=True)
        node = Owner(M.Union, env.members)
        A, wA, S, wS = (z3.Int(x) for x in ('A', 'wA', 'S', 'wS'))
        for w in (wA, wS):
            c.assume(z3.And(w >= 0, w < n))
        c.assume(z3.And(env.ta(wA) == A, env.ts(wS) == S))

        def greatest(i):
            return z3.And(env.ta(i) <= A, env.ts(i) <= S, is_align(env.ta(i)), env.ts(i) >= 0, *env.rules(i))
        c.assume(z3.And(greatest(wA), greatest(wS)))
        c.agg_specs = lambda kind, m, i: [(A, wA, greatest(i)), (S, wS, greatest(i))] if kind == 'max' else []
        f([node])
        c.outcome = 'return'
        al = sym.pick(i_term(node.alignment), sym.ALIGNS)
        c.prove('%s: alignment is the greatest of the arms and the discriminator' % fname,
                i_term(node.alignment) == z3.If(A > 4, A, z3.IntVal(4)))
        c.prove('%s: size is the discriminator and the greatest arm, padded' % fname,
                i_term(node.byte_size) == al + S + pad(al + S, al))
    return [xform.verify(fname, run, {'evaluate_sizes': plan}, ('return',))]


# ------------------------------------------------------------------ stiffness

def typedef_kind():
    """Typedef.calc_wire_stiffness: the kind of the struct at the end of the typedef chain, otherwise fixed."""
    W = world()
    f = W.fn(M.Typedef.calc_wire_stiffness)
    low = W.fn(M.Typedef.lowermost_typedef.fget)
    fname = 'prophyc.model.Typedef.calc_wire_stiffness'
    plan = LoopPlan(chain_plan, whiles=True)

    def end(lp):
        """The last node, or nothing at all after a typedef of a built-in type."""
        node = [x for x in lp.env.values() if isinstance(x, Node)]
        return chain_bound(lp) + (z3.If(node[0].env.T(node[0].i) == 3, 1, 0) if node else 0)
    plan.inv = lambda lp, k: k <= end(lp)
    plan.measure = end

    def run(c):
        env = Env(c, c.int('members', 1), fname)
        i = c.int('i', 0)
        c.assume(i < env.n)

        class T(object):
            @property
            def definition(self):
                return None if cx().branch(env.direct(i)) else Node(env, i, z3.IntVal(0), True)

            @property
            def lowermost_typedef(self):
                return low(self)
        env.facts(i)
        t = T()
        f(t)
        c.outcome = 'return'
        c.prove('%s: the kind of the struct the typedef stands for, else fixed' % fname, i_term(t.kind) == env.kind(i))
    return [xform.verify(fname, run, {'Typedef.lowermost_typedef': plan}, ('return',))]


def struct_kind():
    f = world().fn(M._SerializableContainer.calc_wire_stiffness)
    fname = 'prophyc.model.Struct.calc_wire_stiffness'
    plan = LoopPlan()

    def run(c):
        n = c.int('members', 1)
        env = Env(c, n, fname)
        K, wK, D, wD = z3.Int('K'), z3.Int('wK'), z3.Bool('D'), z3.Int('wD')

        def ghost(x):
            return z3.Implies(z3.And(x >= 0, x < n), z3.And(
                env.kind(x) <= K, z3.Implies(env.shape(x) == DYNAMIC, D), *env.rules(x)))
        c.assume(z3.And(wK >= 0, wK < n, env.kind(wK) == K, ghost(wK), ghost(wD), ghost(n - 1),
                        z3.Implies(D, z3.And(wD >= 0, wD < n, env.shape(wD) == DYNAMIC))))
        c.agg_specs = lambda kind, m, i: [(K, wK, ghost(i))] if kind == 'max' else [(D, wD, ghost(i))]
        stale = z3.Function('kind0', I, I)
        env.heap.base['kind'] = stale
        plan.heap = lambda lp: [StoreInv(env.heap, lambda k: {'kind': lambda x: z3.If(x < k, env.kind(x), stale(x))},
                                         lambda: ({'kind': env.kind}, None))]
        # the contract of the callee (typedef_kind)
        Member.calc_wire_stiffness = lambda self: self.env.heap.write('kind', self.i, SymInt(self.env.kind(self.i)))
        node = Owner(M.Struct, env.members)
        node._check_members_type = lambda m: None
        try:
            f(node)
        finally:
            del Member.calc_wire_stiffness
        c.outcome = 'return'
        k = i_term(node.kind)
        q = c.int('any member', 0)
        c.assume(z3.And(q < n, ghost(q)))
        c.prove('%s: unlimited if a member is greedy or unlimited' % fname,
                z3.Implies(z3.Or(env.shape(q) == GREEDY, env.kind(q) == 2), k == 2))
        c.prove('%s: not fixed if a member is dynamic' % fname,
                z3.Implies(z3.Or(env.shape(q) == DYNAMIC, env.kind(q) == 1), k >= 1))
        c.prove('%s: nothing else makes it dynamic or unlimited' % fname, k == z3.If(
            env.shape(n - 1) == GREEDY, z3.IntVal(2), mx(K, z3.If(D, z3.IntVal(1), z3.IntVal(0)))))

    def fixed(c):
        """A struct without members, and a union, are fixed."""
        for cls in (M.Struct, M.Union):
            node = Owner(cls, [])
            node._check_members_type = lambda m: None
            f(node)
            c.prove('%s: an empty struct and a union are fixed' % fname, i_term(node.kind) == 0)
        c.outcome = 'return'
    return [xform.verify(fname, rn, {'_SerializableContainer.calc_wire_stiffness': plan}, ('return',))
            for rn in (run, fixed)]


# ------------------------------------------------------------------ lemmas

def lemmas():
    F = z3.Function
    Off, Bk, FA, last, cnt, b, pos, wa, ws, al2 = (F(x, I, I) for x in (
        'end', 'block', 'FA', 'last', 'cnt', 'bound', 'pos', 'WA', 'WS', 'offset'))
    dl, dy = F('dl', I, B), F('dynamic', I, B)
    out = []

    def lemma(name):
        def deco(fn):
            def run(c):
                fn(c, c.int('k', 0), c.int('n', 1))
                c.outcome = 'return'
            out.append(xform.verify('lemma ' + name, run, {}, ('return',)))
        return deco

    def ghosts(c, k):
        c.assume(z3.And(last(0) == 0, cnt(0) == 0, b(0) == 0))
        c.assume(z3.And(last(k + 1) == z3.If(dl(k), k + 1, last(k)), cnt(k + 1) == cnt(k) + z3.If(dl(k), 1, 0),
                        z3.Implies(dl(k), z3.And(b(cnt(k) + 1) == k + 1, pos(cnt(k)) == k))))

    @lemma('start of the current block')
    def _(c, k, n):
        ghosts(c, k)

        def P(k):
            return z3.And(b(cnt(k)) == last(k), last(k) <= k, last(k) >= 0, cnt(k) >= 0,
                          z3.Or(last(k) == 0, dl(last(k) - 1)))
        c.prove('lemma start of the current block: base', P(z3.IntVal(0)))
        c.assume(P(k))
        c.prove('lemma start of the current block: step', P(k + 1))

    @lemma('inside of a block')
    def _(c, k, n):
        ghosts(c, k)
        x = c.int('x', 0)

        def P(k):
            return z3.Implies(z3.And(last(k) < x, x <= k), z3.Not(dl(x - 1)))
        c.prove('lemma inside of a block: base', P(z3.IntVal(0)))
        c.assume(z3.And(P(k), last(k) <= k))
        c.prove('lemma inside of a block: step', P(k + 1))

    @lemma('every block has an end')
    def _(c, k, n):
        ghosts(c, k)
        j = c.int('j', 0)

        def P(k):
            return z3.Implies(j < cnt(k), z3.And(pos(j) >= 0, pos(j) < k, dl(pos(j)), cnt(pos(j)) == j))
        c.prove('lemma every block has an end: base', P(z3.IntVal(0)))
        c.assume(z3.And(P(k), cnt(k) >= 0))
        c.prove('lemma every block has an end: step', P(k + 1))

    @lemma('bounds of a block')
    def _(c, k, n):
        # block j, closed by the member k = pos(j), or the last one (k = n, not closed)
        j = c.int('j', 0)
        NB = cnt(n) + z3.If(last(n) < n, 1, 0)
        c.assume(j < NB)
        for at in (k, n):
            c.assume(z3.And(b(cnt(at)) == last(at), last(at) <= at, last(at) >= 0, z3.Or(last(at) == 0, dl(last(at) - 1))))
        closed = c.choose('closed')
        if closed:
            c.assume(z3.And(j < cnt(n), k == pos(j), k < n, dl(k), cnt(k) == j, b(cnt(k) + 1) == k + 1))
        else:
            c.assume(z3.And(j == cnt(n), last(n) < n, b(cnt(n) + 1) == n))
        c.prove('lemma bounds of a block: a block is a non-empty range of members beginning after a dynamic one',
                z3.And(b(j) >= 0, b(j) < b(j + 1), b(j + 1) <= n, z3.Or(b(j) == 0, dl(b(j) - 1))))
        x = c.int('x', 0)
        end = k if closed else n
        c.assume(z3.Implies(z3.And(last(end) < x, x <= end), z3.Not(dl(x - 1))))
        c.prove('lemma bounds of a block: no dynamic member inside', z3.Implies(z3.And(b(j) < x, x < b(j + 1)), z3.Not(dl(x - 1))))

    def block_def(c, k, n):
        c.assume(z3.And(Bk(n) == 1, is_align(wa(k)), k < n))
        c.assume(Bk(k) == mx(wa(k), z3.If(dl(k), z3.IntVal(1), Bk(k + 1))))

    @lemma('alignment of a block')
    def _(c, k, n):
        block_def(c, k, n)
        A, W = c.int('A', 1), F('witness', I, I)
        e = c.int('end', 1)
        c.assume(z3.And(wa(k) <= A, is_align(A), is_align(Bk(k + 1)), Bk(k + 1) <= A))
        c.prove('lemma alignment of a block: an alignment not above that of the struct', z3.And(is_align(Bk(k)), Bk(k) <= A))
        c.prove('lemma alignment of a block: covers its first member', Bk(k) >= wa(k))
        c.prove('lemma alignment of a block: decreases inside', z3.Implies(z3.Not(dl(k)), Bk(k) >= Bk(k + 1)))
        # attained: from the end of the block backwards
        c.assume(z3.And(k < e, e <= n, z3.Implies(k + 1 < e, z3.Not(dl(k))), z3.Or(e == n, dl(e - 1))))
        w = z3.If(z3.And(k + 1 < e, Bk(k + 1) > wa(k)), W(k + 1), k)
        c.assume(z3.Implies(k + 1 < e, z3.And(k + 1 <= W(k + 1), W(k + 1) < e, wa(W(k + 1)) == Bk(k + 1))))
        c.prove('lemma alignment of a block: some member has it', z3.And(k <= w, w < e, wa(w) == Bk(k)))

    def layout(c, x, n, A):
        c.assume(z3.And(
            is_align(wa(x)), ws(x) >= 0, Off(x) >= 0, is_align(Bk(x)), Bk(x) <= A, Bk(x) >= wa(x),
            FA(x) == z3.If(z3.And(x > 0, dl(x - 1)), Bk(x), wa(x)),
            Bk(x) == mx(wa(x), z3.If(z3.Or(dl(x), x + 1 == n), z3.IntVal(1), Bk(x + 1))),
            z3.Implies(dl(x), dy(x)), z3.Implies(z3.And(dy(x), x + 1 < n), dl(x)),
            z3.Implies(dy(x), pad(ws(x), wa(x)) == 0),
            Off(x + 1) == Off(x) + pad(Off(x), FA(x)) + ws(x)))

    @lemma('end of a dynamic member')
    def _(c, k, n):
        A = sym.pick(c.int('A', 1), sym.ALIGNS)
        c.assume(k + 1 < n)
        layout(c, k, n, A)
        layout(c, k + 1, n, A)
        sym.pick(FA(k), sym.ALIGNS)
        sym.pick(FA(k + 1), sym.ALIGNS)
        c.assume(z3.And(dy(k), FA(k) >= FA(k + 1)))
        c.prove('lemma end of a dynamic member: no padding if it is at least as aligned as the next',
                pad(Off(k + 1), FA(k + 1)) == 0)

    @lemma('emitted padding')
    def _(c, k, n):
        """Following the published paddings, an encoder is at the position the wire rules give, after every member."""
        A = z3.IntVal(8)
        c.assume(k + 1 < n)
        layout(c, k, n, A)
        layout(c, k + 1, n, A)
        Len = c.int('length', 0)
        p, BB = c.int('position', 0), c.int('block alignment', 1)
        nx = FA(k + 1)
        P = z3.If(dy(k), z3.If(FA(k) < nx, -nx, z3.IntVal(0)), pad(Off(k + 1), nx))
        # position of member k: equal to the static offset up to a multiple of the alignment of the current block
        c.assume(z3.And(is_align(BB), BB >= Bk(k), pad(p - (Off(k) + pad(Off(k), FA(k))), BB) == 0, pad(p, FA(k)) == 0))
        BBn = sym.pick(BB, sym.ALIGNS)
        sym.pick(FA(k), sym.ALIGNS)
        sym.pick(nx, sym.ALIGNS)
        # a fixed member takes its size; a dynamic one any multiple of its alignment
        c.assume(z3.If(dy(k), pad(Len, wa(k)) == 0, Len == ws(k)))
        end = p + Len
        part = z3.If(dl(k), pad(end, Bk(k + 1)), z3.IntVal(0))
        wire = end + part + pad(end + part, wa(k + 1))
        emitted = end + z3.If(P >= 0, P, pad(end, -P))
        c.prove('lemma emitted padding: the next member starts where the wire rules put it', emitted == wire)
        nb = z3.If(dl(k), Bk(k + 1), BBn)
        c.prove('lemma emitted padding: positions stay congruent to the static offsets', z3.And(
            nb >= Bk(k + 1), pad(emitted - (Off(k + 1) + pad(Off(k + 1), nx)), nb) == 0, pad(emitted, nx) == 0))

    @lemma('end padding')
    def _(c, k, n):
        A = sym.pick(c.int('A', 1), sym.ALIGNS)
        p, Len = c.int('position', 0), c.int('length', 0)
        c.assume(z3.And(pad(p, A) == 0, pad(Len, A) == 0))
        c.prove('lemma end padding: none is needed after an aligned last member', pad(p + Len, A) == 0)

    @lemma('same size as the Python runtime')
    def _(c, k, n):
        """Without dynamic members the offsets are those of the generated Python class (struct_attributes)."""
        A = c.int('A', 1)
        c.assume(z3.And(is_align(A), k < n))
        for x in (k, k + 1):
            c.assume(z3.And(is_align(wa(x)), ws(x) >= 0, Off(x) >= 0))
        c.assume(Off(k + 1) == Off(k) + pad(Off(k), wa(k)) + ws(k))
        nxt = z3.If(k + 1 < n, wa(k + 1), A)
        c.assume(z3.And(Off(0) == 0, al2(0) == 0, is_align(wa(0))))
        c.prove('lemma same size as the Python runtime: base', al2(0) == Off(0) + pad(Off(0), wa(0)))
        c.assume(al2(k) == Off(k) + pad(Off(k), wa(k)))
        c.assume(al2(k + 1) == al2(k) + ws(k) + pad(al2(k) + ws(k), nxt))
        c.prove('lemma same size as the Python runtime: step', al2(k + 1) == Off(k + 1) + pad(Off(k + 1), nxt))
    return out
