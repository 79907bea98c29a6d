"""Regular expressions over strings with symbolic characters: a backtracking matcher over the
parse tree of Python's own regex compiler, with the same leftmost/greedy order."""
import re
from re import _parser, _constants as C
from .core import E, BASE_CH, has_sym, Unmodelled, norm, inter, minus
from . import strings as S

FULL = [(0, 0x10FFFF)]
_real_pattern = re.Pattern
_cache = {}
ASCII_WORD = norm([(48, 57), (65, 90), (95, 95), (97, 122)])
ASCII_WS = norm([(9, 13), (32, 32)])


def category(cat, flags):
    asc = bool(flags & re.ASCII)
    base = {
        C.CATEGORY_DIGIT: ('isdecimal', [(48, 57)]),
        C.CATEGORY_NOT_DIGIT: ('isdecimal', [(48, 57)]),
        C.CATEGORY_SPACE: ('ws', ASCII_WS),
        C.CATEGORY_NOT_SPACE: ('ws', ASCII_WS),
        C.CATEGORY_WORD: ('word', ASCII_WORD),
        C.CATEGORY_NOT_WORD: ('word', ASCII_WORD),
    }[cat]
    s = base[1] if asc else S.cls(base[0])
    if cat in (C.CATEGORY_NOT_DIGIT, C.CATEGORY_NOT_SPACE, C.CATEGORY_NOT_WORD):
        return minus(FULL, s)
    return s


def _case(dom):
    out = list(dom)
    for a, b in dom:
        for k in range(max(a, 65), min(b, 90) + 1):
            out.append((k + 32, k + 32))
        for k in range(max(a, 97), min(b, 122) + 1):
            out.append((k - 32, k - 32))
    return norm(out)


def _ranges(items, flags):
    """IN set -> (interval set, symbolic literals)"""
    neg = False
    out, syms = [], []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            if av in E.syms:
                syms.append(av)
            else:
                out.append((av, av))
        elif op is C.RANGE:
            out.append(av)
        elif op is C.CATEGORY:
            out.extend(category(av, flags))
        else:
            raise Unmodelled('regex set %s' % op)
    out = norm(out)
    if flags & re.IGNORECASE:
        out = _case(out)
    if neg and not syms:
        return minus(FULL, out), [], False
    return out, syms, neg


class Matcher:
    def __init__(self, pattern, text, flags):
        self.text = text
        self.cs = S.codes(text)
        self.n = len(self.cs)
        self.flags = flags
        self.steps = 0
        self.memo = {}

    def lit(self, c, av, flags):
        if av in E.syms:
            return S.codes_eq([c], [E.syms[av]])
        if flags & re.IGNORECASE:
            return S.code_in(c, _case([(av, av)]))
        return S.code_is(c, av)

    def one(self, op, av, c, flags):
        if op is C.LITERAL:
            return self.lit(c, av, flags)
        if op is C.NOT_LITERAL:
            return not self.lit(c, av, flags)
        if op is C.ANY:
            if flags & re.DOTALL:
                return True
            return not S.code_is(c, 10)
        if op is C.IN:
            key = (id(av), flags)
            r = self.memo.get(key)
            if r is None:
                r = self.memo[key] = _ranges(av, flags)
            dom, syms, neg = r
            if S.code_in(c, dom):
                return not neg
            for y in syms:
                if S.codes_eq([c], [E.syms[y]]):
                    return not neg
            return neg
        if op is C.CATEGORY:
            return S.code_in(c, category(av, flags))
        return None

    def m(self, seq, k, i, g, flags, cont):
        """match seq[k:] at i with groups g (dict), call cont(i, g); first success wins."""
        self.steps += 1
        if self.steps > 200000:
            raise Unmodelled('regex steps')
        if k == len(seq):
            return cont(i, g)
        op, av = seq[k]
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN, C.CATEGORY):
            if i < self.n and self.one(op, av, self.cs[i], flags):
                return self.m(seq, k + 1, i + 1, g, flags, cont)
            return None
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.m(list(alt), 0, i, g, flags,
                           lambda j, gg: self.m(seq, k + 1, j, gg, flags, cont))
                if r is not None:
                    return r
            return None
        if op is C.SUBPATTERN:
            gid, addf, delf, p = av
            nf = (flags | addf) & ~delf

            def done(j, gg):
                if gid is not None:
                    gg = dict(gg)
                    gg[gid] = (i, j)
                    gg['last'] = gid
                return self.m(seq, k + 1, j, gg, flags, cont)
            return self.m(list(p), 0, i, g, nf, done)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, p = av
            hi = None if hi is C.MAXREPEAT else hi
            p = list(p)
            if len(p) == 1 and p[0][0] in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN, C.CATEGORY):
                return self.simple_repeat(op, lo, hi, p[0], seq, k, i, g, flags, cont)
            if op is C.POSSESSIVE_REPEAT:
                raise Unmodelled('possessive repeat')
            greedy = op is C.MAX_REPEAT

            def rep(count, j, gg, last):
                def more():
                    if hi is not None and count >= hi:
                        return None
                    if count >= lo and j == last:
                        return None
                    return self.m(p, 0, j, gg, flags, lambda j2, g2: rep(count + 1, j2, g2, j))

                def stop():
                    if count < lo:
                        return None
                    return self.m(seq, k + 1, j, gg, flags, cont)
                if greedy:
                    r = more()
                    return r if r is not None else stop()
                r = stop()
                return r if r is not None else more()
            return rep(0, i, g, -1)
        if op is C.AT:
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                if av is C.AT_BEGINNING and flags & re.MULTILINE:
                    ok = i == 0 or S.code_is(self.cs[i - 1], 10)
                else:
                    ok = i == 0
            elif av is C.AT_END:
                if flags & re.MULTILINE:
                    ok = i == self.n or S.code_is(self.cs[i], 10)
                else:
                    ok = i == self.n or (i == self.n - 1 and S.code_is(self.cs[i], 10))
            elif av is C.AT_END_STRING:
                ok = i == self.n
            elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                word = category(C.CATEGORY_WORD, flags)
                a = i > 0 and S.code_in(self.cs[i - 1], word)
                b = i < self.n and S.code_in(self.cs[i], word)
                ok = (a != b) == (av is C.AT_BOUNDARY)
            else:
                raise Unmodelled('regex at %s' % av)
            return self.m(seq, k + 1, i, g, flags, cont) if ok else None
        if op is C.GROUPREF:
            sp = g.get(av)
            if sp is None:
                return None
            ref = self.cs[sp[0]:sp[1]]
            if i + len(ref) <= self.n and S.codes_eq(self.cs[i:i + len(ref)], ref):
                return self.m(seq, k + 1, i + len(ref), g, flags, cont)
            return None
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, p = av
            p = list(p)
            if direction > 0:
                r = self.m(p, 0, i, g, flags, lambda j, gg: gg)
            else:
                lo, hi = p_width(p)
                r = None
                for w in range(lo, min(hi, i) + 1):
                    r = self.m(p, 0, i - w, g, flags, lambda j, gg: gg if j == i else None)
                    if r is not None:
                        break
            if op is C.ASSERT:
                return self.m(seq, k + 1, i, r, flags, cont) if r is not None else None
            return self.m(seq, k + 1, i, g, flags, cont) if r is None else None
        if op is C.GROUPREF_EXISTS:
            gid, yes, no = av
            p = list(yes) if gid in g else (list(no) if no else [])
            return self.m(p, 0, i, g, flags, lambda j, gg: self.m(seq, k + 1, j, gg, flags, cont))
        if op is C.ATOMIC_GROUP:
            r = self.m(list(av), 0, i, g, flags, lambda j, gg: (j, gg))
            return None if r is None else self.m(seq, k + 1, r[0], r[1], flags, cont)
        raise Unmodelled('regex op %s' % op)

    def simple_repeat(self, op, lo, hi, item, seq, k, i, g, flags, cont):
        o, av = item
        count = 0
        if op is C.MIN_REPEAT:
            while count < lo:
                if i + count >= self.n or not self.one(o, av, self.cs[i + count], flags):
                    return None
                count += 1
            while True:
                r = self.m(seq, k + 1, i + count, g, flags, cont)
                if r is not None:
                    return r
                if (hi is not None and count >= hi) or i + count >= self.n \
                        or not self.one(o, av, self.cs[i + count], flags):
                    return None
                count += 1
        while (hi is None or count < hi) and i + count < self.n \
                and self.one(o, av, self.cs[i + count], flags):
            count += 1
        if count < lo:
            return None
        if op is C.POSSESSIVE_REPEAT:
            return self.m(seq, k + 1, i + count, g, flags, cont)
        while count >= lo:
            r = self.m(seq, k + 1, i + count, g, flags, cont)
            if r is not None:
                return r
            count -= 1
        return None


def p_width(p):
    sp = _parser.SubPattern(_parser.State(), list(p))
    return sp.getwidth()


class SymPattern:
    """Compiled pattern (possibly with symbolic literals)."""

    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        key = (pattern, flags)
        src = pattern
        if has_sym(src):
            # a symbolic character is a literal unless it equals a metacharacter
            src = S.resolve(src, norm([(ord(c), ord(c)) for c in '.^$*+?{}[]\\|()-']))
            if flags & re.VERBOSE:
                raise Unmodelled('verbose symbolic pattern')
            self.tree = _parser.parse(src, flags)
        else:
            hit = _cache.get(key)
            if hit is None:
                hit = _cache[key] = _parser.parse(src, flags)
            self.tree = hit
        self.flags = self.tree.state.flags
        self.groups = self.tree.state.groups - 1
        self.groupindex = dict(self.tree.state.groupdict)
        self.seq = list(self.tree)

    def _at(self, mt, i, full=False):
        end = (lambda j, g: (j, g) if j == mt.n else None) if full else (lambda j, g: (j, g))
        r = mt.m(self.seq, 0, i, {}, self.flags, end)
        if r is None:
            return None
        return SymMatch(self, mt.text, i, r[0], r[1])

    def _mt(self, s):
        if not isinstance(s, str):
            raise TypeError('expected string or bytes-like object')
        return Matcher(self, str.__str__(s), self.flags)

    def match(self, string, pos=0, endpos=None):
        if pos or endpos is not None:
            raise Unmodelled('regex pos')
        return self._at(self._mt(string), 0)

    def fullmatch(self, string, pos=0, endpos=None):
        return self._at(self._mt(string), 0, True)

    def search(self, string, pos=0, endpos=None):
        mt = self._mt(string)
        for i in range(pos, mt.n + 1):
            m = self._at(mt, i)
            if m is not None:
                return m
        return None

    def finditer(self, string, pos=0, endpos=None):
        mt = self._mt(string)
        i, must_advance = 0, False
        while i <= mt.n:
            m = None
            for j in range(i, mt.n + 1):
                m = self._nonempty(mt, j) if (j == i and must_advance) else self._at(mt, j)
                if m is not None:
                    break
            if m is None:
                return
            yield m
            must_advance = m.end() == m.start()
            i = m.end()

    def _nonempty(self, mt, i):
        r = mt.m(self.seq, 0, i, {}, self.flags, lambda j, g: (j, g) if j > i else None)
        if r is None:
            return None
        return SymMatch(self, mt.text, i, r[0], r[1])

    def findall(self, string, pos=0, endpos=None):
        out = []
        for m in self.finditer(string):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) if m.group(1) is not None else '')
            else:
                out.append(tuple('' if x is None else x for x in m.groups()))
        return out

    def split(self, string, maxsplit=0):
        out, last, n = [], 0, 0
        s = str.__str__(string)
        for m in self.finditer(string):
            if maxsplit and n >= maxsplit:
                break
            out.append(s[last:m.start()])
            out.extend(m.groups())
            last = m.end()
            n += 1
        out.append(s[last:])
        return out

    def subn(self, repl, string, count=0):
        from . import rt
        s = str.__str__(string)
        out, last, n = [], 0, 0
        if isinstance(repl, str):
            tmpl = parse_template(repl, self)
        for m in self.finditer(string):
            if count and n >= count:
                break
            out.append(s[last:m.start()])
            out.append(expand(tmpl, m) if isinstance(repl, str) else rt.call(repl, m))
            last = m.end()
            n += 1
        out.append(s[last:])
        return ''.join(out), n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]


def parse_template(repl, pat):
    """Replacement template -> list of str | int (group)."""
    if has_sym(repl):
        repl = S.resolve(repl, [(92, 92)])
    if '\\' not in repl:
        return [repl]
    if has_sym(repl):
        # the characters right after a backslash decide what it means: make them concrete
        out, i = [], 0
        while i < len(repl):
            out.append(repl[i])
            if repl[i] == '\\' and i + 1 < len(repl):
                for k in range(1, 4):
                    if i + k < len(repl):
                        nxt = S.force(repl[i + k])
                        repl = repl[:i + k] + nxt + repl[i + k + 1:]
                out.append(repl[i + 1])
                i += 1
            i += 1
        repl = ''.join(out)
        if '\\g' in repl:
            raise Unmodelled('named group in symbolic template')
    real = re.compile('()' * max(pat.groups, 0)) if not pat.groupindex else re.compile(pat.pattern, pat.flags)
    t = _parser.parse_template(repl, real)
    return list(t)


def expand(tmpl, m):
    out = []
    for x in tmpl:
        if isinstance(x, int):
            out.append(m.group(x) or '')
        else:
            out.append(x)
    return ''.join(out)


class SymMatch:
    def __init__(self, rx, text, a, b, g):
        self.re = rx
        self.string = text
        self.pos = 0
        self.endpos = len(text)
        self._g = dict(g)
        self.lastindex = self._g.pop('last', None)
        self._g[0] = (a, b)

    def _i(self, k):
        if isinstance(k, str):
            return self.re.groupindex[k]
        k = int(k)
        if k > self.re.groups:
            raise IndexError('no such group')
        return k

    def _get(self, k):
        sp = self._g.get(self._i(k))
        return None if sp is None else self.string[sp[0]:sp[1]]

    def group(self, *ks):
        if not ks:
            return self._get(0)
        if len(ks) == 1:
            return self._get(ks[0])
        return tuple(self._get(k) for k in ks)

    __getitem__ = _get

    def groups(self, default=None):
        return tuple(self._get(k) if k in self._g else default for k in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: (self._get(k) if k in self._g else default) for n, k in self.re.groupindex.items()}

    def span(self, k=0):
        return self._g.get(self._i(k), (-1, -1))

    def start(self, k=0): return self.span(k)[0]
    def end(self, k=0): return self.span(k)[1]

    def expand(self, t):
        return expand(parse_template(t, self.re), self)


def compile_(pattern, flags=0):
    if isinstance(pattern, _real_pattern):
        return SymPattern(pattern.pattern, pattern.flags & ~re.UNICODE if isinstance(pattern.pattern, str) else 0)
    if isinstance(pattern, SymPattern):
        return pattern
    return SymPattern(pattern, int(flags))
