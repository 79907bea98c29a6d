"""Bounded symbolic execution core.

A *path* is one execution of a harness over the real code.  Inputs are symbolic: characters of
strings and integers are SMT variables (z3 Ints).  Whenever the running code needs a concrete truth
value that depends on a symbolic variable, ``decide`` asks the solver which outcomes are possible
under the conditions collected so far; the path follows one and the others are queued.  Exploring
the queue until it is empty covers every input of the stated domain.
"""
import sys
import time
import zlib

sys.setrecursionlimit(20000)
if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402

BASE = 0x100000
TOP = 0x10FFFD
BASE_CH = chr(BASE)


class Abort(BaseException):
    """Engine control flow; never caught by the code under test (see rewrite.py)."""


class Infeasible(Abort):
    """Path condition (or an assumption) is unsatisfiable."""


class Unmodelled(Abort):
    """An operation the engine has no model of."""


class PathLimit(Abort):
    """Step or time limit of one path."""


class Violated(Abort):
    def __init__(self, label, info=None):
        self.label = label
        self.info = info or {}
        super().__init__(label)


class EngineError(Abort):
    pass


# --------------------------------------------------------------------------- character domains
def norm(iv):
    iv = sorted(iv)
    out = []
    for a, b in iv:
        if a > b:
            continue
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return out


def inter(x, y):
    out = []
    i = j = 0
    while i < len(x) and j < len(y):
        a = max(x[i][0], y[j][0])
        b = min(x[i][1], y[j][1])
        if a <= b:
            out.append((a, b))
        if x[i][1] < y[j][1]:
            i += 1
        else:
            j += 1
    return out


def minus(x, y):
    out = []
    for a, b in x:
        cur = a
        for c, d in y:
            if d < cur:
                continue
            if c > b:
                break
            if c > cur:
                out.append((cur, c - 1))
            cur = d + 1
            if cur > b:
                break
        if cur <= b:
            out.append((cur, b))
    return out


def dom_has(dom, c):
    for a, b in dom:
        if a <= c <= b:
            return True
    return False


def dom_size(dom):
    return sum(b - a + 1 for a, b in dom)


def in_dom_term(term, dom):
    ors = []
    for a, b in dom:
        if a == b:
            ors.append(term == a)
        else:
            ors.append(z3.And(term >= a, term <= b))
    if not ors:
        return z3.BoolVal(False)
    return ors[0] if len(ors) == 1 else z3.Or(*ors)


def chars(spec):
    """'a-z0-9-' style alphabet -> intervals (a trailing/leading '-' is literal, as is one between characters in descending order)."""
    out = []
    i = 0
    while i < len(spec):
        if i + 2 < len(spec) and spec[i + 1] == '-' and spec[i] < spec[i + 2]:
            out.append((ord(spec[i]), ord(spec[i + 2])))
            i += 3
        else:
            out.append((ord(spec[i]), ord(spec[i])))
            i += 1
    return norm(out)


class Sym:
    """One symbolic character."""
    __slots__ = ('term', 'dom', 'cp', 'var')

    def __init__(self, term, dom, cp, var=None):
        self.var = var       # number of the variable when it is one
        self.term = term
        self.dom = dom
        self.cp = cp


class Engine:
    def __init__(self):
        self.active = False
        self.stats = dict(paths=0, decisions=0, queries=0, solver_s=0.0, forks=0)
        self.native_calls = {}
        self.functions = set()
        self.solver = z3.Solver()
        self.solver.set('timeout', 20000)
        self.vars, self.dom_terms, self.eq_terms = {}, {}, {}     # kept between paths: names repeat
        self.incomplete = False
        self.max_decisions = 20000

    # ---- path life cycle
    def begin(self, prefix):
        self.active = True
        self.prefix = prefix
        self.trail = []
        self.pending = []
        self.sigs = []
        self.syms = {}
        self.next_cp = BASE
        self.nvar = 0
        self.inputs = []          # (label, kind, value)
        self.observations = []
        self.reached = set()
        self.memo = {}
        self.pairs = {}           # equalities of characters already decided
        self.keep = []            # keep ASTs alive so ids stay unique
        self.model = None
        self.notes = set()
        self.steps = 0
        self.path_t0 = time.time()
        self.solver.push()
        self.path_state = {}

    def end(self):
        self.solver.pop()
        self.active = False
        self.stats['paths'] += 1

    # ---- solver
    def add(self, cond):
        self.solver.add(cond)
        if self.model is not None:
            if not z3.is_true(self.model.eval(cond, model_completion=True)):
                self.model = None

    def check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.stats['solver_s'] += time.time() - t
        self.stats['queries'] += 1
        if r == z3.unknown:
            self.notes.add('solver-unknown')
            self.incomplete = True
        return r

    def get_model(self):
        if self.model is None:
            r = self.check()
            if r == z3.unsat:
                raise Infeasible('path condition')
            if r == z3.unknown:
                raise Unmodelled('solver unknown')
            self.model = self.solver.model()
        return self.model

    def eval_int(self, term):
        v = self.get_model().eval(term, model_completion=True)
        return v.as_long()

    # ---- decisions
    def _record(self, alt, sig):
        self.trail.append(alt)
        self.stats['decisions'] += 1
        if len(self.trail) > self.max_decisions:
            raise PathLimit('decisions')

    def decide(self, cond):
        """Truth value of `cond` on this path (forks when both values are possible)."""
        if cond is True or cond is False:
            return cond
        key = cond.get_id()
        hit = self.memo.get(key)
        if hit is not None:
            return hit
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.steps += 1
        if (self.steps & 63) == 0 and time.time() - self.path_t0 > self.path_timeout:
            raise PathLimit('time')
        d = len(self.trail)
        if d < len(self.prefix):
            alt = self.prefix[d]
            # alt: 1 True, 0 False ; forced outcomes are recorded too, as 3/2
            if alt not in (0, 1, 2, 3):
                raise EngineError('divergence: expected choice, got decide')
            val = bool(alt & 1)
            if alt < 2:
                self.add(cond if val else z3.Not(cond))
            self._record(alt, None)
        else:
            m = self.get_model()
            cur = z3.is_true(m.eval(cond, model_completion=True))
            neg = z3.Not(cond)
            r = self.check(neg if cur else cond)
            if r == z3.unsat:
                val = cur
                self._record(3 if cur else 2, None)
            else:
                # both feasible (unknown is treated as feasible and flagged): follow the model
                val = cur
                self.pending.append(self.trail + [0 if cur else 1])
                self.stats['forks'] += 1
                self.solver.add(cond if cur else neg)
                self._record(1 if cur else 0, None)
        self.memo[key] = val
        self.keep.append(cond)
        return val

    def choose(self, n, term=None):
        """n-way choice of a fresh symbolic selector; every alternative is feasible by construction."""
        if n == 1:
            alt = 0
            if term is not None:
                self.add(term == 0)
            return 0
        d = len(self.trail)
        if d < len(self.prefix):
            code = self.prefix[d]
            if code < 10:
                raise EngineError('divergence: expected decide, got choice')
            alt = code - 10
        else:
            alt = 0
            for k in range(n - 1, 0, -1):
                self.pending.append(self.trail + [10 + k])
                self.stats['forks'] += 1
        if alt >= n:
            raise EngineError('divergence: choice out of range')
        if term is not None:
            self.add(term == alt)
        self._record(10 + alt, None)
        return alt

    def concretise(self, term):
        """Fork until `term` has one value; return it."""
        term = z3.simplify(term)
        if z3.is_int_value(term):
            return term.as_long()
        for _ in range(5000):
            d = len(self.trail)
            if d < len(self.prefix):
                # the value tried at this position was recorded with the prefix
                code = self.prefix[d]
                if code < 1000000:
                    raise EngineError('divergence: expected concretise')
                v, taken = self._decode(code)
                self._record(code, None)
                c = term == v
                self.add(c if taken else z3.Not(c))
                if taken:
                    return v
                continue
            v = self.eval_int(term)
            c = term == v
            r = self.check(z3.Not(c))
            self._record(self._encode(v, True), None)
            if r != z3.unsat:
                self.pending.append(self.trail[:-1] + [self._encode(v, False)])
                self.stats['forks'] += 1
                self.solver.add(c)
            return v
        raise PathLimit('concretise')

    @staticmethod
    def _encode(v, taken):
        z = 2 * v if v >= 0 else -2 * v - 1
        return 1000000 + 2 * z + (1 if taken else 0)

    @staticmethod
    def _decode(code):
        code -= 1000000
        taken = bool(code & 1)
        z = code >> 1
        v = z // 2 if z % 2 == 0 else -(z + 1) // 2
        return v, taken

    # ---- symbols
    def fresh_int(self, name='i'):
        self.nvar += 1
        n = '%s_%d' % (name, self.nvar)
        v = self.vars.get(n)
        if v is None:
            v = self.vars[n] = z3.Int(n)
        return v

    def new_char(self, dom, term=None, constrain=True):
        """New symbolic character; returns the one-character str that stands for it."""
        cp = self.next_cp
        self.next_cp += 1
        if cp > TOP:
            raise PathLimit('symbols')
        var = None
        if term is None:
            term = self.fresh_int('c')
            var = self.nvar
            if constrain:
                key = (var, tuple(dom))
                c = self.dom_terms.get(key)
                if c is None:
                    c = self.dom_terms[key] = in_dom_term(term, dom)
                self.add(c)
        self.syms[cp] = Sym(term, dom, cp, var)
        return chr(cp)

    # ---- values under the current model
    def concrete(self, v, model=None, depth=0):
        """Value of an observed object under the path's model, as plain JSON-able data."""
        m = model if model is not None else self.get_model()
        if isinstance(v, str):
            if not has_sym(v):
                return str(v)
            out = []
            for ch in str.__str__(v):
                s = self.syms.get(ord(ch)) if ch >= BASE_CH else None
                if s is None:
                    out.append(ch)
                else:
                    out.append(chr(m.eval(s.term, model_completion=True).as_long()))
            return ''.join(out)
        if isinstance(v, SymInt):
            return m.eval(v.term, model_completion=True).as_long()
        if v is None or isinstance(v, (bool, int, float)):
            return v
        if isinstance(v, bytes):
            try:
                return self.concrete(v.decode('utf-8'), m)
            except UnicodeDecodeError:
                return repr(v)
        if depth > 12:
            return '<deep>'
        if isinstance(v, (list, tuple)):
            return [self.concrete(x, m, depth + 1) for x in v]
        if isinstance(v, dict):
            return {'__dict__': [[self.concrete(k, m, depth + 1), self.concrete(x, m, depth + 1)]
                                 for k, x in v.items()]}
        if isinstance(v, (set, frozenset)):
            return {'__set__': sorted((self.concrete(x, m, depth + 1) for x in v), key=repr)}
        return '<%s>' % type(v).__name__


def has_sym(s):
    """Does this str contain a symbolic character?"""
    if s.isascii():
        return False
    return max(str.__str__(s)) >= BASE_CH


def deep_sym(v, depth=0):
    if isinstance(v, str):
        return has_sym(v)
    if isinstance(v, SymInt):
        return True
    if depth > 4:
        return False
    if isinstance(v, (list, tuple, set, frozenset)):
        for x in v:
            if deep_sym(x, depth + 1):
                return True
        return False
    if isinstance(v, dict):
        for k, x in v.items():
            if deep_sym(k, depth + 1) or deep_sym(x, depth + 1):
                return True
    return False


E = Engine()
E.path_timeout = 20.0


# --------------------------------------------------------------------------- symbolic integers
def _t(x):
    if isinstance(x, SymInt):
        return x.term
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    return None


class SymInt:
    """Integer whose value is an SMT term.  Comparisons decide; anything that needs the number
    itself (index, hash, native formatting) forks over its possible values."""
    __slots__ = ('term',)

    def __init__(self, term):
        self.term = term

    def _bin(self, o, f):
        t = _t(o)
        if t is None:
            return NotImplemented
        return SymInt(f(self.term, t))

    def _rbin(self, o, f):
        t = _t(o)
        if t is None:
            return NotImplemented
        return SymInt(f(t, self.term))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._rbin(o, lambda a, b: a + b)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._rbin(o, lambda a, b: a - b)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self): return SymInt(-self.term)
    def __pos__(self): return self
    def __abs__(self): return SymInt(z3.If(self.term < 0, -self.term, self.term))

    @staticmethod
    def _floordiv(a, b):
        # python floor division / modulo for a non-zero b (z3 div is Euclidean)
        if E.decide(b == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if E.decide(b > 0):
            return a / b, a % b
        return (-a) / (-b), -((-a) % (-b))

    def __floordiv__(self, o):
        t = _t(o)
        if t is None:
            return NotImplemented
        return SymInt(self._floordiv(self.term, t)[0])

    def __rfloordiv__(self, o):
        t = _t(o)
        if t is None:
            return NotImplemented
        return SymInt(self._floordiv(t, self.term)[0])

    def __mod__(self, o):
        t = _t(o)
        if t is None:
            return NotImplemented
        return SymInt(self._floordiv(self.term, t)[1])

    def __rmod__(self, o):
        t = _t(o)
        if t is None:
            return NotImplemented
        return SymInt(self._floordiv(t, self.term)[1])

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        t = _t(o)
        if t is None:
            return NotImplemented
        if E.decide(t == 0):
            raise ZeroDivisionError('division by zero')
        return SymQuot(self.term, t)

    def __rtruediv__(self, o):
        t = _t(o)
        if t is None:
            return NotImplemented
        if E.decide(self.term == 0):
            raise ZeroDivisionError('division by zero')
        return SymQuot(t, self.term)

    def _cmp(self, o, f):
        if isinstance(o, SymQuot):
            return NotImplemented
        t = _t(o)
        if t is None:
            if isinstance(o, float):
                v = self.__index__()
                return f(v, o)
            return NotImplemented
        return E.decide(z3.simplify(f(self.term, t)))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self): return E.decide(z3.simplify(self.term != 0))
    def __index__(self): return E.concretise(self.term)
    __int__ = __index__
    __trunc__ = __index__
    def __float__(self): return float(self.__index__())
    def __hash__(self): return hash(self.__index__())
    def __ceil__(self): return self
    def __floor__(self): return self
    def __round__(self, n=None): return self

    def __str__(self):
        return int_to_str(self)
    __repr__ = __str__

    def __format__(self, spec):
        if spec in ('', 'd'):
            return int_to_str(self)
        return format(self.__index__(), spec)

    def __deepcopy__(self, memo): return self

    def __reduce__(self):
        lst = E.path_state.setdefault('pickled', [])
        lst.append(self)
        return _unpickle, (len(lst) - 1,)

    def __copy__(self): return self

    @property
    def numerator(self): return self

    def is_integer(self): return True


def _unpickle(k):
    return E.path_state['pickled'][k]


class SymQuot:
    """Exact quotient of two symbolic integers (the code under test only ceils/floors/compares it)."""
    def __init__(self, a, b):
        self.a, self.b = a, b

    def _floor(self):
        return SymInt(SymInt._floordiv(self.a, self.b)[0])

    def __floor__(self): return self._floor()

    def __ceil__(self):
        return -SymQuot(-self.a, self.b)._floor()

    def __trunc__(self):
        if self < 0:
            return self.__ceil__()
        return self._floor()
    __int__ = __trunc__

    def __round__(self, n=None):
        raise Unmodelled('round of a symbolic quotient')

    def _cmp(self, o, f):
        if isinstance(o, SymQuot):
            if E.decide(self.b > 0) and E.decide(o.b > 0):
                return E.decide(f(self.a * o.b, o.a * self.b))
            raise Unmodelled('quotient comparison')
        t = _t(o)
        if t is None:
            raise Unmodelled('quotient comparison')
        if E.decide(self.b > 0):
            return E.decide(f(self.a, t * self.b))
        return E.decide(f(t * self.b, self.a))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return not self == o
    def __hash__(self): return 0
    def __bool__(self): return not self == 0

    def is_integer(self):
        return E.decide(SymInt._floordiv(self.a, self.b)[1] == 0)

    def __add__(self, o):
        t = _t(o)
        if t is None:
            raise Unmodelled('quotient arithmetic')
        return SymQuot(self.a + t * self.b, self.b)
    __radd__ = __add__

    def __sub__(self, o):
        return self + (-o)

    def __neg__(self):
        return SymQuot(-self.a, self.b)


DIGITS = [(48, 57)]


def int_to_str(v):
    t = z3.simplify(v.term)
    if z3.is_int_value(t):
        return str(t.as_long())
    if E.decide(t < 0):
        return '-' + int_to_str(SymInt(z3.simplify(-t)))
    n = 1
    while not E.decide(t < 10 ** n):
        n += 1
        if n > 12:
            raise PathLimit('digits')
    out = []
    total = z3.IntVal(0)
    for k in range(n):
        ch = E.new_char(DIGITS if k or n == 1 else [(49, 57)])
        out.append(ch)
        total = total * 10 + (E.syms[ord(ch)].term - 48)
    E.add(total == t)
    return ''.join(out)
