"""Reader of textual LLVM IR: types, functions, blocks, instructions."""
import re

TOK = re.compile(r'"(?:[^"\\]|\\.)*"|%"(?:[^"\\]|\\.)*"|@"(?:[^"\\]|\\.)*"|[%@][\w.$-]+|c"(?:[^"\\]|\\.)*"|-?\d+(?:\.\d+e[+-]\d+)?|'
                 r'0x[0-9A-Fa-f]+|[\w.]+|[{}()\[\]<>,=*]|![\w.]+|#\d+|\S')
FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'disjoint', 'nneg', 'fast', 'tail', 'musttail', 'notail', 'volatile', 'noundef',
         'nonnull', 'zeroext', 'signext', 'nocapture', 'readonly', 'writeonly', 'readnone', 'noalias', 'immarg', 'returned',
         'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'linkonce_odr', 'internal', 'private', 'weak_odr', 'mustprogress',
         'contract', 'nnan', 'ninf', 'nsz', 'arcp', 'afn', 'reassoc', 'allocsize', 'noreturn', 'swiftself', 'inreg', 'noinline', 'dead_on_unwind', 'writable', 'hidden', 'linkonce', 'weak', 'noundef',
         'personality', 'nest', 'extern_weak', 'available_externally', 'ninf', 'fastcc', 'ccc'}


class Bad(Exception):
    """The text is outside the supported subset."""


class Ty(object):
    def __init__(self, kind, n=0, sub=(), packed=False):
        self.kind, self.n, self.sub, self.packed = kind, n, list(sub), packed


class Ins(object):
    def __init__(self, dst, op, **kw):
        self.dst, self.op = dst, op
        self.__dict__.update(kw)


class Fn(object):
    def __init__(self, name, ret, args):
        self.name, self.ret, self.args, self.blocks, self.entry = name, ret, args, {}, None


class Module(object):
    def __init__(self, text):
        self.types, self.fns, self.decls, self.consts = {}, {}, set(), {}
        lines = text.split('\n')
        raw = {}
        self.meta = dict(re.findall(r'^!(\d+) = !\{(.*)\}$', text, re.M))
        i = 0
        while i < len(lines):
            ln = lines[i]
            m = re.match(r'(%"[^"]*"|%[\w.$-]+) = type (.*)$', ln)
            if m:
                raw[m.group(1)] = m.group(2)
            elif ln.startswith('define'):
                body = []
                i += 1
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                try:
                    self.define(ln, body)
                except Bad:
                    pass                    # a call of it is then outside the subset
            elif ln.startswith('declare'):
                self.decls.add(re.search(r'@("[^"]*"|[\w.$-]+)\(', ln).group(1).strip('"'))
            else:
                m = re.match(r'@("[^"]*"|[\w.$-]+) = .*?\b(constant|global) (.*)$', ln)
                if m:
                    self.consts[m.group(1).strip('"')] = (m.group(2), m.group(3))
            i += 1
        self.raw = raw

    # -- types
    def ty(self, t):
        """Resolves a named type."""
        if t.kind != 'named':
            return t
        if t.n not in self.types:
            if t.n not in self.raw:
                raise Bad('opaque type ' + t.n)
            self.types[t.n] = Line(self, self.raw[t.n]).type()
        return self.ty(self.types[t.n])

    def size(self, t):
        t = self.ty(t)
        if t.kind == 'int':
            return (t.n + 7) // 8
        if t.kind in ('ptr', 'double'):
            return 8
        if t.kind == 'float':
            return 4
        if t.kind == 'array':
            return t.n * self.size(t.sub[0])
        if t.kind == 'struct':
            off = 0
            for s in t.sub:
                a = 1 if t.packed else self.align(s)
                off = (off + a - 1) // a * a + self.size(s)
            a = self.align(t)
            return (off + a - 1) // a * a
        raise Bad('size of ' + t.kind)

    def align(self, t):
        t = self.ty(t)
        if t.kind == 'array':
            return self.align(t.sub[0])
        if t.kind == 'struct':
            return 1 if t.packed else max([1] + [self.align(s) for s in t.sub])
        return self.size(t)

    def field(self, t, k):
        off = 0
        for j, s in enumerate(t.sub):
            a = 1 if t.packed else self.align(s)
            off = (off + a - 1) // a * a
            if j == k:
                return off
            off += self.size(s)
        raise Bad('field')

    # -- functions
    def define(self, head, body):
        ln = Line(self, head[len('define'):])
        ln.skip_attrs()
        ret = ln.type()
        ln.skip_attrs()
        name = ln.next().lstrip('@').strip('"')
        ln.expect('(')
        args = []
        while ln.peek() != ')':
            if ln.peek() == '...':
                ln.next()
                continue
            t = ln.type()
            ln.skip_attrs()
            args.append((ln.next(), t))
            if ln.peek() == ',':
                ln.next()
        fn = Fn(name, ret, args)
        cur = '%' + str(len(args))
        fn.entry = cur
        fn.blocks[cur] = []
        k = 0
        while k < len(body):
            b = body[k]
            k += 1
            if not b.strip() or b.startswith(';'):
                continue
            m = re.match(r'("[^"]*"|[\w.$-]+):', b)
            if m and not b.startswith(' '):
                lab = '%' + m.group(1)
                if cur == fn.entry and not fn.blocks[cur]:
                    del fn.blocks[cur]
                    fn.entry = lab
                cur = lab
                fn.blocks[cur] = []
                continue
            if re.match(r'\s+switch ', b) and ']' not in b:
                while ']' not in b:
                    b += ' ' + body[k].strip()
                    k += 1
            if re.match(r'.*(landingpad|invoke)', b):
                # invoke: the destination follows on the next line
                while k < len(body) and re.match(r'\s+(to label|cleanup|catch|filter)', body[k]):
                    b += ' ' + body[k].strip()
                    k += 1
            fn.blocks[cur].append(b)
        self.fns[name] = fn

    def code(self, fn):
        """Instructions of a function (parsed on first use)."""
        if not hasattr(fn, 'parsed'):
            fn.parsed = {lab: [Line(self, b).instruction() for b in ins] for lab, ins in fn.blocks.items()}
        return fn.parsed


class Line(object):
    def __init__(self, mod, text):
        m = re.search(r'!range !(\d+)', text)
        self.bool = m is not None and mod.meta.get(m.group(1)) == 'i8 0, i8 2'
        text = re.sub(r', ![\w.]+ !\d+', '', text)
        text = re.sub(r', !(srcloc|noundef|range) ![\d]+', '', text)
        self.mod, self.t, self.i, self.text = mod, TOK.findall(text.split(' ; preds')[0]), 0, text

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def expect(self, x):
        if self.next() != x:
            raise Bad('expected %s in %s' % (x, self.text))

    def skip_attrs(self):
        while self.peek() is not None:
            p = self.peek()
            if p in FLAGS or p.startswith('#'):
                self.next()
            elif p in ('align', 'comdat'):
                self.next()
                if p == 'align':
                    self.next()
            elif p in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'memory', 'range', 'captures', 'initializes'):
                self.next()
                if self.peek() == '(':
                    self.balanced()
            else:
                return

    def balanced(self):
        d = 0
        while True:
            x = self.next()
            d += x in '([{'
            d -= x in ')]}'
            if d == 0:
                return

    def type(self):
        x = self.next()
        if re.match(r'i\d+$', x):
            t = Ty('int', int(x[1:]))
        elif x in ('ptr', 'float', 'double', 'void', 'label', 'metadata'):
            t = Ty(x)
        elif x.startswith('%'):
            t = Ty('named', x)
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            t = Ty('array', n, [self.type()])
            self.expect(']')
        elif x in '{<':
            packed = x == '<'
            if packed:
                self.expect('{')
            sub = []
            while self.peek() != '}':
                sub.append(self.type())
                if self.peek() == ',':
                    self.next()
            self.next()
            if packed:
                self.expect('>')
            t = Ty('struct', 0, sub, packed)
        else:
            raise Bad('type %s in %s' % (x, self.text))
        return t

    def value(self, t):
        """Operand of a known type: a tuple of how to compute it."""
        x = self.next()
        if x.startswith('%'):
            return ('reg', x, t)
        if x.startswith('@'):
            return ('global', x[1:].strip('"'), t)
        if x in ('true', 'false'):
            return ('int', int(x == 'true'), t)
        if x == 'null' or x == 'zeroinitializer':
            return ('zero', 0, t)
        if x in ('undef', 'poison'):
            return ('undef', 0, t)
        if re.match(r'-?\d+$', x):
            return ('int', int(x), t)
        if x == '{':
            sub = []
            while self.peek() != '}':
                st = self.type()
                sub.append(self.value(st))
                if self.peek() == ',':
                    self.next()
            self.next()
            return ('struct', sub, t)
        if x in ('ptrtoint', 'inttoptr'):
            self.expect('(')
            st = self.type()
            v = self.value(st)
            self.expect('to')
            dt = self.type()
            self.expect(')')
            return ('cast', x, v, dt)
        if x == 'getelementptr':
            self.skip_attrs()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            ops = self.operands(')')
            return ('gep', bt, ops)
        if t.kind in ('float', 'double'):
            return ('float', x, t)
        raise Bad('operand %s in %s' % (x, self.text))

    def operands(self, end=None):
        out = []
        while self.peek() not in (None, end):
            t = self.type()
            self.skip_attrs()
            out.append(self.value(t))
            if self.peek() == ',':
                self.next()
                if self.peek() in ('align', '!'):
                    break
            else:
                break
        if end:
            self.expect(end)
        return out

    def instruction(self):
        dst = None
        if self.peek(1) == '=':
            dst = self.next()
            self.next()
        while self.peek() in FLAGS:
            self.next()
        op = self.next()
        while self.peek() in FLAGS:
            self.next()
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            t = self.type()
            a = self.value(t)
            self.expect(',')
            return Ins(dst, 'bin', f=op, a=a, b=self.value(t), t=t)
        if op == 'icmp':
            p = self.next()
            t = self.type()
            a = self.value(t)
            self.expect(',')
            return Ins(dst, op, p=p, a=a, b=self.value(t))
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            t = self.type()
            a = self.value(t)
            self.expect('to')
            return Ins(dst, 'cast', f=op, a=a, t=self.type())
        if op == 'freeze':
            t = self.type()
            return Ins(dst, 'copy', a=self.value(t))
        if op == 'select':
            t = self.type()
            c = self.value(t)
            self.expect(',')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t = self.type()
            return Ins(dst, op, c=c, a=a, b=self.value(t))
        if op == 'phi':
            t = self.type()
            src = []
            while True:
                self.expect('[')
                v = self.value(t)
                self.expect(',')
                src.append((v, self.next()))
                self.expect(']')
                if self.peek() != ',':
                    break
                self.next()
            return Ins(dst, op, src=src, t=t)
        if op == 'load':
            t = self.type()
            self.expect(',')
            self.type()
            return Ins(dst, op, t=t, p=self.value(Ty('ptr')), bool=self.bool)
        if op == 'store':
            t = self.type()
            v = self.value(t)
            self.expect(',')
            self.type()
            return Ins(dst, op, t=t, v=v, p=self.value(Ty('ptr')))
        if op == 'getelementptr':
            bt = self.type()
            self.expect(',')
            return Ins(dst, 'gep', v=('gep', bt, self.operands()))
        if op == 'br':
            t = self.type()
            if t.kind == 'label':
                return Ins(None, 'jump', to=self.next())
            c = self.value(t)
            self.expect(',')
            self.expect('label')
            a = self.next()
            self.expect(',')
            self.expect('label')
            return Ins(None, 'br', c=c, a=a, b=self.next())
        if op == 'switch':
            t = self.type()
            v = self.value(t)
            self.expect(',')
            self.expect('label')
            d = self.next()
            self.expect('[')
            cases = []
            while self.peek() != ']':
                ct = self.type()
                cv = self.value(ct)
                self.expect(',')
                self.expect('label')
                cases.append((cv, self.next()))
            return Ins(None, op, v=v, default=d, cases=cases)
        if op == 'ret':
            t = self.type()
            return Ins(None, op, v=None if t.kind == 'void' else self.value(t))
        if op in ('unreachable', 'resume'):
            return Ins(None, 'unreachable')
        if op in ('call', 'invoke'):
            self.skip_attrs()
            t = self.type()
            if self.peek() == '(':      # a function type
                self.balanced()
            callee = self.next()
            if not callee.startswith('@'):
                raise Bad('indirect call')
            self.expect('(')
            args = self.call_args()
            to = None
            if op == 'invoke':
                while self.next() != 'to':
                    pass
                self.expect('label')
                to = self.next()
            return Ins(dst, 'call', f=callee[1:].strip('"'), args=args, t=t, to=to)
        if op == 'extractvalue':
            t = self.type()
            a = self.value(t)
            self.expect(',')
            return Ins(dst, op, a=a, k=int(self.next()))
        if op == 'insertvalue':
            t = self.type()
            a = self.value(t)
            self.expect(',')
            vt = self.type()
            v = self.value(vt)
            self.expect(',')
            return Ins(dst, op, a=a, v=v, k=int(self.next()))
        if op == 'alloca':
            t = self.type()
            return Ins(dst, op, t=t)
        if op in ('landingpad',):
            return Ins(dst, 'landingpad')
        raise Bad('instruction %s in %s' % (op, self.text))

    def call_args(self):
        out = []
        while self.peek() != ')':
            t = self.type()
            self.skip_attrs()
            if t.kind == 'metadata':
                while self.peek() not in (',', ')'):
                    self.next()
                out.append(None)
            else:
                out.append(self.value(t))
            if self.peek() == ',':
                self.next()
        self.next()
        return out
