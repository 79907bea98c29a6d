"""XPath 1.0 (the part real expressions here use) over lxml trees whose attributes and text may hold
symbolic characters.  Node tests and axes are concrete; string comparisons go to the solver."""
import math
import re
from lxml import etree
from .core import E, has_sym, Unmodelled, SymInt
from . import strings as S

TOKEN = re.compile(r'''\s*(?:
    (?P<num>\d+(?:\.\d*)?|\.\d+)|
    (?P<op>//|::|!=|<=|>=|\.\.|[/|()\[\]@,=<>+*$.\-])|
    (?P<name>[^\W\d][\w.\-]*(?::(?!:)(?:[^\W\d][\w.\-]*|\*))?)
)''', re.X | re.U)

AXES = {'child', 'descendant', 'parent', 'ancestor', 'following-sibling', 'preceding-sibling', 'following',
        'preceding', 'attribute', 'self', 'descendant-or-self', 'ancestor-or-self', 'namespace'}


def err():
    return etree.XPathEvalError('Invalid expression')


def lex(expr):
    toks = []
    i, n = 0, len(expr)
    while i < n:
        ch = expr[i]
        if has_sym(ch):
            ch = S.resolve(ch, [(34, 34), (39, 39)])
            if has_sym(ch):
                if S.code_class(E.syms[ord(ch)], 'ws') and False:
                    pass
                # a symbolic character outside a literal: make it concrete
                expr = expr[:i] + S.force(expr[i]) + expr[i + 1:]
                ch = expr[i]
        if ch in '"\'':
            q = ord(ch)
            j = i + 1
            while j < n and not S.code_is(S.codes(expr[j])[0], q):
                j += 1
            if j >= n:
                raise err()
            toks.append(('lit', expr[i + 1:j]))
            i = j + 1
            continue
        if ch in ' \t\r\n':
            i += 1
            continue
        m = TOKEN.match(expr, i)
        if not m or m.end() == i:
            raise err()
        txt = m.group().strip()
        if any(has_sym(c) for c in txt):
            k = next(k for k in range(i, m.end()) if has_sym(expr[k]))
            expr = expr[:k] + S.force(expr[k]) + expr[k + 1:]
            continue
        toks.append((m.lastgroup, txt))
        i = m.end()
    # disambiguation of operator names and '*'
    out = []
    for kind, t in toks:
        prev = out[-1] if out else None
        binary = prev is not None and not (prev[0] == 'op' and prev[1] in (
            '@', '::', '(', '[', ',', '/', '//', '|', '+', '-', '=', '!=', '<', '<=', '>', '>=', '$')) and \
            prev[0] != 'binop'
        if kind == 'op' and t == '*' and binary:
            out.append(('binop', '*'))
        elif kind == 'name' and t in ('and', 'or', 'div', 'mod') and binary:
            out.append(('binop', t))
        else:
            out.append((kind, t))
    out.append(('end', ''))
    return out


class Parser:
    def __init__(self, expr):
        self.t = lex(expr)
        self.i = 0

    def peek(self, v=None, kind='op'):
        k, t = self.t[self.i]
        if v is None:
            return k, t
        return k == kind and t == v

    def take(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def accept(self, v, kind='op'):
        if self.peek(v, kind):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise err()

    def parse(self):
        e = self.or_()
        if self.peek()[0] != 'end':
            raise err()
        return e

    def _left(self, sub, ops):
        e = sub()
        while True:
            k, t = self.peek()
            if (k, t) in ops:
                self.take()
                e = ('bin', t, e, sub())
            else:
                return e

    def or_(self): return self._left(self.and_, {('binop', 'or')})
    def and_(self): return self._left(self.eq, {('binop', 'and')})
    def eq(self): return self._left(self.rel, {('op', '='), ('op', '!=')})
    def rel(self): return self._left(self.add, {('op', x) for x in ('<', '<=', '>', '>=')})
    def add(self): return self._left(self.mul, {('op', '+'), ('op', '-')})
    def mul(self): return self._left(self.unary, {('binop', x) for x in ('*', 'div', 'mod')})

    def unary(self):
        if self.accept('-'):
            return ('neg', self.unary())
        return self.union()

    def union(self):
        e = self.path()
        while self.accept('|'):
            e = ('union', e, self.path())
        return e

    def path(self):
        k, t = self.peek()
        primary = k in ('lit', 'num') or (k == 'op' and t in ('(', '$'))
        if k == 'name' and self.t[self.i + 1] == ('op', '(') and t not in ('text', 'node', 'comment',
                                                                         'processing-instruction'):
            primary = True
        if primary:
            e = self.primary()
            preds = []
            while self.peek('['):
                preds.append(self.pred())
            if preds:
                e = ('filter', e, preds)
            if self.peek('/') or self.peek('//'):
                return ('path', e, self.steps(relative=True))
            return e
        if self.peek('/'):
            self.take()
            k, t = self.peek()
            if k == 'name' or (k == 'op' and t in ('@', '.', '..', '*')):
                return ('path', 'root', self.steps())
            return ('path', 'root', [])
        if self.peek('//'):
            return ('path', 'root', self.steps(relative=True))
        return ('path', 'ctx', self.steps())

    def steps(self, relative=False):
        out = []
        if relative:
            if self.accept('//'):
                out.append(('descendant-or-self', ('type', 'node', None), []))
            else:
                self.expect('/')
        out.append(self.step())
        while True:
            if self.accept('//'):
                out.append(('descendant-or-self', ('type', 'node', None), []))
                out.append(self.step())
            elif self.accept('/'):
                out.append(self.step())
            else:
                return out

    def step(self):
        if self.accept('.'):
            return ('self', ('type', 'node', None), [])
        if self.accept('..'):
            return ('parent', ('type', 'node', None), [])
        axis = 'child'
        if self.accept('@'):
            axis = 'attribute'
        elif self.peek()[0] == 'name' and self.t[self.i + 1] == ('op', '::'):
            axis = self.take()[1]
            if axis not in AXES:
                raise err()
            self.take()
        k, t = self.take()
        if k == 'op' and t == '*':
            test = ('name', None, '*')
        elif k == 'name':
            if t in ('text', 'node', 'comment', 'processing-instruction') and self.peek('('):
                self.take()
                arg = None
                if self.peek()[0] == 'lit':
                    arg = self.take()[1]
                self.expect(')')
                test = ('type', t, arg)
            else:
                p, _, l = t.rpartition(':')
                test = ('name', p or None, l)
        else:
            raise err()
        preds = []
        while self.peek('['):
            preds.append(self.pred())
        return (axis, test, preds)

    def pred(self):
        self.expect('[')
        e = self.or_()
        self.expect(']')
        return e

    def primary(self):
        k, t = self.take()
        if k == 'lit':
            return ('lit', t)
        if k == 'num':
            return ('num', float(t))
        if k == 'op' and t == '(':
            e = self.or_()
            self.expect(')')
            return e
        if k == 'op' and t == '$':
            return ('var', self.take()[1])
        name = t
        self.expect('(')
        args = []
        if not self.peek(')'):
            args.append(self.or_())
            while self.accept(','):
                args.append(self.or_())
        self.expect(')')
        return ('call', name, args)


class Doc:
    __slots__ = ('root',)

    def __init__(self, root):
        self.root = root


class Attr:
    __slots__ = ('el', 'name', 'value')

    def __init__(self, el, name, value):
        self.el, self.name, self.value = el, name, value


class Text:
    __slots__ = ('el', 'tail', 'value')

    def __init__(self, el, tail, value):
        self.el, self.tail, self.value = el, tail, value


def is_el(n):
    return isinstance(n, etree._Element)


def el_text(e):
    return e.text if isinstance(e.tag, str) else None


class Evaluator:
    def __init__(self, node, namespaces, variables):
        self.ns = namespaces or {}
        self.vars = variables
        self.order = None
        top = node
        while top.getparent() is not None:
            top = top.getparent()
        self.top = top
        self.doc = Doc(top)
        self.hold = []

    # -- tree navigation
    def children(self, n):
        if isinstance(n, Doc):
            return [n.root]
        if not is_el(n) or not isinstance(n.tag, str):
            return []
        out = []
        t = el_text(n)
        if t:
            out.append(Text(n, False, t))
        for c in n.iterchildren():
            out.append(c)
            if c.tail:
                out.append(Text(c, True, c.tail))
        return out

    def parent(self, n):
        if isinstance(n, Doc):
            return None
        if isinstance(n, Attr):
            return n.el
        if isinstance(n, Text):
            return n.el.getparent() if n.tail else n.el
        p = n.getparent()
        return self.doc if p is None else p

    def descendants(self, n, self_too):
        out = [n] if self_too else []
        stack = list(reversed(self.children(n)))
        while stack:
            c = stack.pop()
            out.append(c)
            stack.extend(reversed(self.children(c)))
        return out

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, Text) and isinstance(b, Text):
            return a.el is b.el and a.tail == b.tail
        if isinstance(a, Attr) and isinstance(b, Attr):
            return a.el is b.el and a.name == b.name
        return isinstance(a, Doc) and isinstance(b, Doc)

    def siblings(self, n, forward):
        if isinstance(n, (Attr, Doc)):
            return []
        p = self.parent(n)
        ch = self.children(p)
        k = next(i for i, c in enumerate(ch) if self.same(c, n))
        return ch[k + 1:] if forward else list(reversed(ch[:k]))

    def axis(self, axis, n):
        if axis == 'child':
            return self.children(n)
        if axis == 'descendant':
            return self.descendants(n, False)
        if axis == 'descendant-or-self':
            return self.descendants(n, True)
        if axis == 'self':
            return [n]
        if axis == 'parent':
            p = self.parent(n)
            return [] if p is None else [p]
        if axis in ('ancestor', 'ancestor-or-self'):
            out = [n] if axis == 'ancestor-or-self' else []
            p = self.parent(n)
            while p is not None:
                out.append(p)
                p = self.parent(p)
            return out
        if axis == 'attribute':
            return [Attr(n, k, v) for k, v in n.attrib.items()] if is_el(n) and isinstance(n.tag, str) else []
        if axis == 'following-sibling':
            return self.siblings(n, True)
        if axis == 'preceding-sibling':
            return self.siblings(n, False)
        if axis in ('following', 'preceding'):
            out = []
            cur = n
            while cur is not None and not isinstance(cur, Doc):
                for s in self.siblings(cur, axis == 'following'):
                    d = self.descendants(s, True)
                    out.extend(d if axis == 'following' else reversed(d))
                cur = self.parent(cur)
            return out
        raise Unmodelled('xpath axis ' + axis)

    def test(self, axis, test, n):
        kind = test[0]
        if kind == 'type':
            t = test[1]
            if t == 'node':
                return True
            if t == 'text':
                return isinstance(n, Text)
            if t == 'comment':
                return is_el(n) and n.tag is etree.Comment
            return is_el(n) and n.tag is etree.PI
        _, prefix, local = test
        if axis == 'attribute':
            if not isinstance(n, Attr):
                return False
            name = n.name
        else:
            if not is_el(n) or not isinstance(n.tag, str):
                return False
            name = n.tag
        if prefix is None and local == '*':
            return True
        if prefix is None:
            uri = ''
        elif prefix == 'xml':
            uri = 'http://www.w3.org/XML/1998/namespace'
        elif prefix in self.ns:
            uri = self.ns[prefix]
        else:
            raise etree.XPathEvalError('Undefined namespace prefix')
        nuri, nlocal = '', name
        if name.startswith('{'):
            nuri, nlocal = name[1:].split('}', 1)
        if nuri != uri:
            return False
        return local == '*' or S.str_eq(nlocal, local)

    # -- evaluation
    def run(self, ast, n, pos=1, size=1):
        op = ast[0]
        if op == 'path':
            if ast[1] == 'root':
                cur = [self.doc]
            elif ast[1] == 'ctx':
                cur = [n]
            else:
                cur = self.run(ast[1], n, pos, size)
                if not isinstance(cur, list):
                    raise err()
            for st in ast[2]:
                cur = self.step(st, cur)
            return cur
        if op == 'filter':
            r = self.run(ast[1], n, pos, size)
            for p in ast[2]:
                r = self.filter(p, r)
            return r
        if op == 'lit':
            return ast[1]
        if op == 'num':
            return ast[1]
        if op == 'var':
            return self.vars[ast[1]]
        if op == 'neg':
            return -self.number(self.run(ast[1], n, pos, size))
        if op == 'union':
            a = self.run(ast[1], n, pos, size)
            b = self.run(ast[2], n, pos, size)
            return self.sortdoc(a + b)
        if op == 'bin':
            return self.binop(ast, n, pos, size)
        if op == 'call':
            return self.func(ast[1], ast[2], n, pos, size)
        raise Unmodelled('xpath ' + op)

    def step(self, st, nodes):
        axis, test, preds = st
        out = []
        for n in nodes:
            c = [x for x in self.axis(axis, n) if self.test(axis, test, x)]
            for p in preds:
                c = self.filter(p, c)
            out.extend(c)
        rev = axis in ('ancestor', 'ancestor-or-self', 'preceding', 'preceding-sibling')
        if len(nodes) > 1 or rev:
            out = self.sortdoc(out)
        return out

    def filter(self, p, nodes):
        out = []
        size = len(nodes)
        for i, x in enumerate(nodes):
            r = self.run(p, x, i + 1, size)
            if isinstance(r, float):
                keep = r == i + 1
            else:
                keep = self.boolean(r)
            if keep:
                out.append(x)
        return out

    def sortdoc(self, nodes):
        if len(nodes) < 2:
            return nodes
        if self.order is None:
            order = {}
            for i, e in enumerate(self.descendants(self.doc, True)):
                if is_el(e):
                    order[id(e)] = i
                    self.hold.append(e)
                elif isinstance(e, Text):
                    order[(id(e.el), e.tail)] = i
            self.order = order

        def key(x):
            if isinstance(x, Doc):
                return (-1, 0)
            if isinstance(x, Attr):
                return (self.order[id(x.el)], 1 + list(x.el.attrib).index(x.name))
            if isinstance(x, Text):
                return (self.order[(id(x.el), x.tail)], 0)
            return (self.order[id(x)], 0)
        out, seen = [], set()
        for x in sorted(nodes, key=key):
            k = key(x)
            if k not in seen:
                seen.add(k)
                out.append(x)
        return out

    def string(self, v):
        if isinstance(v, list):
            if not v:
                return ''
            return self.nodestr(self.sortdoc(v)[0])
        if isinstance(v, bool):
            return 'true' if v else 'false'
        if isinstance(v, float):
            if math.isnan(v):
                return 'NaN'
            return str(int(v)) if v == int(v) else str(v)
        return v

    def nodestr(self, n):
        if isinstance(n, Doc):
            n = n.root
        if isinstance(n, (Attr, Text)):
            return n.value
        if n.tag is etree.Comment or n.tag is etree.PI:
            return n.text or ''
        return ''.join(x.value for x in self.descendants(n, False) if isinstance(x, Text))

    def boolean(self, v):
        if isinstance(v, (list, str)):
            return len(v) > 0
        if isinstance(v, float):
            return v != 0 and not math.isnan(v)
        return bool(v)

    def number(self, v):
        if isinstance(v, float):
            return v
        if isinstance(v, bool):
            return 1.0 if v else 0.0
        s = self.string(v)
        if has_sym(s):
            s = S.s_strip(s)
            if has_sym(s):
                for c in S.codes(s):
                    if not S.code_in(c, [(48, 57), (45, 46)]):
                        return float('nan')
                s = S.force(s)
        try:
            s = s.strip()
            if not re.fullmatch(r'-?(\d+(\.\d*)?|\.\d+)', s):
                return float('nan')
            return float(s)
        except ValueError:
            return float('nan')

    def binop(self, ast, n, pos, size):
        op = ast[1]
        if op == 'or':
            return self.boolean(self.run(ast[2], n, pos, size)) or self.boolean(self.run(ast[3], n, pos, size))
        if op == 'and':
            return self.boolean(self.run(ast[2], n, pos, size)) and self.boolean(self.run(ast[3], n, pos, size))
        a = self.run(ast[2], n, pos, size)
        b = self.run(ast[3], n, pos, size)
        if op in ('=', '!=', '<', '<=', '>', '>='):
            return self.compare(op, a, b)
        a, b = self.number(a), self.number(b)
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == 'div':
            return a / b if b else (float('nan') if not a else math.copysign(float('inf'), a))
        return math.fmod(a, b)

    def compare(self, op, a, b):
        if isinstance(a, list) and isinstance(b, list):
            return any(self.cmp1(op, self.nodestr(x), self.nodestr(y)) for x in a for y in b)
        if isinstance(a, list):
            if isinstance(b, bool):
                return self.cmp1(op, self.boolean(a), b)
            return any(self.cmp1(op, self.nodestr(x), b) for x in a)
        if isinstance(b, list):
            if isinstance(a, bool):
                return self.cmp1(op, a, self.boolean(b))
            return any(self.cmp1(op, a, self.nodestr(y)) for y in b)
        return self.cmp1(op, a, b)

    def cmp1(self, op, a, b):
        if op in ('=', '!='):
            if isinstance(a, bool) or isinstance(b, bool):
                r = self.boolean(a) == self.boolean(b)
            elif isinstance(a, float) or isinstance(b, float):
                r = self.number(a) == self.number(b)
            else:
                r = S.str_eq(a, b)
            return r if op == '=' else not r
        a, b = self.number(a), self.number(b)
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]

    def func(self, name, args, n, pos, size):
        if name == 'position':
            return float(pos)
        if name == 'last':
            return float(size)
        v = [self.run(a, n, pos, size) for a in args]
        if name == 'count':
            return float(len(v[0]))
        if name == 'not':
            return not self.boolean(v[0])
        if name == 'true':
            return True
        if name == 'false':
            return False
        if name == 'boolean':
            return self.boolean(v[0])
        if name == 'string':
            return self.string(v[0] if v else [n])
        if name == 'number':
            return self.number(v[0] if v else [n])
        if name == 'concat':
            return ''.join(self.string(x) for x in v)
        if name == 'contains':
            return S.s_contains(self.string(v[0]), self.string(v[1]))
        if name == 'starts-with':
            return S.s_startswith(self.string(v[0]), self.string(v[1]))
        if name == 'string-length':
            return float(len(self.string(v[0] if v else [n])))
        if name == 'normalize-space':
            s = self.string(v[0] if v else [n])
            return ' '.join(S.s_split(S.s_translate(s, {9: ' ', 10: ' ', 13: ' '}).strip(' '), ' ')) if False else \
                ' '.join(x for x in re_ws(s))
        if name in ('name', 'local-name'):
            x = (v[0][0] if v[0] else None) if v else n
            if x is None or not is_el(x) and not isinstance(x, Attr):
                return ''
            q = etree.QName(x.tag if is_el(x) else x.name)
            if name == 'local-name' or not is_el(x) or not x.prefix:
                return q.localname
            return x.prefix + ':' + q.localname
        raise Unmodelled('xpath function ' + name)


def re_ws(s):
    out, cur = [], ''
    for ch, c in zip(s, S.codes(s)):
        if S.code_in(c, [(9, 10), (13, 13), (32, 32)]):
            if cur:
                out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur:
        out.append(cur)
    return out


_ASTS = {}


def evaluate(node, expr, namespaces=None, extensions=None, smart_strings=True, **variables):
    ast = _ASTS.get(expr) if not has_sym(expr) else None
    if ast is None:
        ast = Parser(expr).parse()
        if not has_sym(expr):
            _ASTS[expr] = ast
    if namespaces and '' in namespaces or namespaces and None in namespaces:
        raise Unmodelled('default namespace in xpath')
    ev = Evaluator(node, namespaces, variables)
    r = ev.run(ast, node)
    if isinstance(r, list):
        return [x if is_el(x) else (x.root if isinstance(x, Doc) else x.value) for x in r
                if not (isinstance(x, Doc))]
    return r
