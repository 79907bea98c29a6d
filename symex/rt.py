"""Runtime the rewritten code calls into.  With no symbolic value involved every function here does
exactly what the original operation does."""
import bisect
import builtins
import collections
import copy as _copy
import enum
import functools
import heapq
import itertools
import operator
import re
import types
from .core import (E, Abort, SymInt, SymQuot, has_sym, deep_sym, Unmodelled, BASE_CH, norm)
from . import strings as S
from . import regex as R

_str_eq = str.__eq__
_tuple_eq = tuple.__eq__
_list_eq = list.__eq__
_dict_eq = dict.__eq__
SEQ_EQ = (_tuple_eq, _list_eq)

FuncT = types.FunctionType
MethT = types.MethodType
BuiltinT = types.BuiltinFunctionType
BuiltinMethT = type(re.compile('').sub)   # C methods with a defining class
MethDescT = type(str.join)
WrapperT = type(''.__eq__)
SlotT = type(str.__eq__)

EQ_HOOKS = []          # (type, function) for library types with native comparison


def enter(name):
    E.functions.add(name)


# --------------------------------------------------------------------------- equality / ordering
def eq(a, b):
    ta, tb = type(a), type(b)
    if ta is str and tb is str:
        return S.str_eq(a, b)
    if ta in (int, bool, type(None)) and tb in (int, bool, type(None)):
        return a == b
    ea = ta.__eq__
    eb = tb.__eq__
    if ea is _str_eq and eb is _str_eq:
        return S.str_eq(a, b)
    if not E.active:
        return a == b
    if ea in SEQ_EQ and eb is ea:
        return seq_eq(a, b)
    if ea is _dict_eq and eb is _dict_eq:
        return dict_eq(a, b)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return set_eq(a, b)
    if isinstance(ea, FuncT):
        if ea is _counter_eq and isinstance(b, collections.Counter):
            return all(eq(counted(a, x), counted(b, x)) for c in (a, b) for x in list(c))
        names = generated(ta, ea)
        if names is not None and tb is ta:
            return seq_eq([getattr(a, n) for n in names], [getattr(b, n) for n in names])
    elif (ea is _keys_eq or eb is _keys_eq) and isinstance(a, SETLIKE) and isinstance(b, SETLIKE):
        return set_eq(mkset(a), mkset(b))
    for t, f in EQ_HOOKS:
        if isinstance(a, t) or isinstance(b, t):
            r = f(a, b)
            if r is not NotImplemented:
                return r
    return a == b


def ne(a, b):
    ta, tb = type(a), type(b)
    if ta.__ne__ is object.__ne__ or ta.__ne__ in (str.__ne__, tuple.__ne__, list.__ne__, dict.__ne__,
                                                   set.__ne__, frozenset.__ne__, int.__ne__):
        return not eq(a, b)
    for t, f in EQ_HOOKS:
        if isinstance(a, t) or isinstance(b, t):
            r = f(a, b)
            if r is not NotImplemented:
                return not r
    return a != b


_counter_eq = collections.Counter.__eq__
_keys_eq = type({}.keys()).__eq__
SETLIKE = (set, frozenset, type({}.keys()), type({}.items()))


def counted(c, x):
    return dict.get(c, canon(x, c), 0)


def generated(cls, f):
    """fields compared by a method generated by dataclasses"""
    if '__dataclass_fields__' in cls.__dict__ and f.__qualname__.startswith('__create_fn__'):
        return [n for n, x in cls.__dataclass_fields__.items() if x.compare]
    if '__dataclass_fields__' in cls.__dict__ and f.__code__.co_filename == '<string>':
        return [n for n, x in cls.__dataclass_fields__.items() if x.compare]
    return None


def seq_eq(a, b):
    a = list(tuple.__iter__(a) if isinstance(a, tuple) else list.__iter__(a))
    b = list(tuple.__iter__(b) if isinstance(b, tuple) else list.__iter__(b))
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x is not y and not eq(x, y):
            return False
    return True


def dict_eq(a, b):
    if len(a) != len(b):
        return False
    for k in list(a):
        kk = canon(k, b)
        if kk is not MISSING and dict.__contains__(b, kk):
            if not eq(dict.__getitem__(a, k), dict.__getitem__(b, kk)):
                return False
        else:
            return False
    return True


def set_eq(a, b):
    if len(a) != len(b):
        return False
    for x in list(a):
        if not set_has(b, x):
            return False
    return True


def _ord(a, b, strict):
    """a < b (strict) or a <= b"""
    ta, tb = type(a), type(b)
    if isinstance(a, str) and isinstance(b, str) and ta.__lt__ is str.__lt__:
        return S.str_lt(a, b) if strict else S.str_le(a, b)
    if (isinstance(a, tuple) and isinstance(b, tuple) and ta.__lt__ is tuple.__lt__) or \
            (isinstance(a, list) and isinstance(b, list) and ta.__lt__ is list.__lt__):
        for x, y in zip(a, b):
            if x is y or eq(x, y):
                continue
            return _ord(x, y, strict)
        return len(a) < len(b) if strict else len(a) <= len(b)
    f = ta.__lt__
    if ta is tb and isinstance(f, FuncT):
        names = generated(ta, f)
        if names is not None:
            return _ord(tuple(getattr(a, n) for n in names), tuple(getattr(b, n) for n in names), strict)
    return (a < b) if strict else (a <= b)


def lt(a, b):
    if E.active:
        if isinstance(a, (set, frozenset)):
            return subset(a, b) and len(a) < len(b)
        return _ord(a, b, True)
    return a < b


def le(a, b):
    if E.active:
        if isinstance(a, (set, frozenset)):
            return subset(a, b)
        return _ord(a, b, False)
    return a <= b


def gt(a, b):
    if E.active:
        if isinstance(a, (str, tuple, list)) and type(a).__gt__ in (str.__gt__, tuple.__gt__, list.__gt__):
            return _ord(b, a, True)
        if isinstance(a, (set, frozenset)):
            return lt(b, a)
    return a > b


def ge(a, b):
    if E.active:
        if isinstance(a, (str, tuple, list)) and type(a).__ge__ in (str.__ge__, tuple.__ge__, list.__ge__):
            return _ord(b, a, False)
        if isinstance(a, (set, frozenset)):
            return le(b, a)
    return a >= b


def is_(a, b): return a is b
def is_not(a, b): return a is not b


def chain(left, *items):
    for op, th in items:
        right = th()
        r = op(left, right)
        if not r:
            return r
        left = right
    return r


# --------------------------------------------------------------------------- hashed containers
MISSING = object()


def symkey(k):
    if isinstance(k, str):
        return has_sym(k)
    if isinstance(k, tuple):
        for x in k:
            if symkey(x):
                return True
        return False
    if isinstance(k, SymInt):
        return True
    t = type(k)
    if t.__hash__ is not object.__hash__ and t.__module__.startswith(('MyCapytain', 'props.')):
        return True
    return False


def canon(k, container):
    """The key of `container` that equals `k` on this path (forking), or `k` itself."""
    if not E.active:
        return k
    if isinstance(k, SymInt):
        k = k.__index__()
    try:
        if k in container.keys() if isinstance(container, (dict, types.MappingProxyType)) else set.__contains__(container, k) \
                if isinstance(container, set) else frozenset.__contains__(container, k):
            return k
    except TypeError:
        if isinstance(k, (list, dict, set)):
            raise
    ksym = symkey(k)
    n = str.__len__(k) if isinstance(k, str) else tuple.__len__(k) if isinstance(k, tuple) else None
    for e in list(container):
        if n is not None:
            if isinstance(k, str):
                if not isinstance(e, str) or str.__len__(e) != n:
                    continue
                if not ksym and not has_sym(e):
                    continue
            else:
                if not isinstance(e, tuple) or tuple.__len__(e) != n:
                    continue
                if not ksym and not symkey(e):
                    continue
        else:
            if not ksym or type(e) is not type(k):
                continue
        if eq(k, e):
            return e
    return k


def set_has(s, x):
    k = canon(x, s)
    return set.__contains__(s, k) if isinstance(s, set) else frozenset.__contains__(s, k)


def subset(a, b):
    for x in list(a):
        if not in_(x, b):
            return False
    return True


def mkdict(items):
    d = {}
    for it in items:
        if len(it) == 1:
            m = it[0]
            for k in m.keys():
                d[canon(k, d)] = m[k]
        else:
            d[canon(it[0], d)] = it[1]
    return d


def mkset(items, cls=set):
    s = set()
    for x in items:
        s.add(canon(x, s))
    return s if cls is set else cls(s)


class _Sub:
    """Subscript store/delete target for a dict."""
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return getitem(self.d, k)

    def __setitem__(self, k, v):
        self.d[canon(k, self.d)] = v

    def __delitem__(self, k):
        del self.d[canon(k, self.d)]


def _native_dict(o):
    """dict whose subscription is the built-in one (possibly with a Python-level __missing__)."""
    return isinstance(o, dict)


def sub(o):
    if E.active and isinstance(o, dict):
        t = type(o)
        if t in (dict, collections.OrderedDict, collections.defaultdict) or not isinstance(
                t.__setitem__, FuncT):
            return _Sub(o)
    return o


def getitem(o, k):
    if not E.active:
        return o[k]
    if isinstance(o, dict):
        if not isinstance(type(o).__getitem__, FuncT):
            return o[canon(k, o)]
        return o[k]
    if isinstance(o, (types.MappingProxyType, enum.EnumMeta)) and isinstance(k, str):
        m = o if isinstance(o, types.MappingProxyType) else o.__members__
        return m[canon(k, m)]
    return o[k]


def in_(x, o):
    if not E.active:
        return x in o
    if isinstance(o, str):
        if isinstance(x, str):
            t = type(o).__contains__
            if not isinstance(t, FuncT):
                if has_sym(x) or has_sym(o):
                    return S.s_contains(str.__str__(o), str.__str__(x))
        return x in o
    if isinstance(o, dict):
        if isinstance(type(o).__contains__, FuncT):
            return x in o
        return dict.__contains__(o, canon(x, o))
    if isinstance(o, (set, frozenset)):
        return set_has(o, x)
    if isinstance(o, (list, tuple)):
        if isinstance(type(o).__contains__, FuncT):
            return x in o
        for y in list.__iter__(o) if isinstance(o, list) else tuple.__iter__(o):
            if y is x or eq(y, x):
                return True
        return False
    if isinstance(o, (type({}.keys()),)):
        m = dict.fromkeys(o)
        return dict.__contains__(m, canon(x, m))
    if isinstance(o, types.MappingProxyType):
        return canon(x, o) in o.keys()
    t = type(o)
    if isinstance(o, (type({}.values()), types.GeneratorType, collections.deque)) or not hasattr(t, '__contains__'):
        for y in o:
            if y is x or eq(y, x):
                return True
        return False
    return x in o


def m_seq(s, n, star):
    """does a sequence pattern of n (or more) elements fit"""
    if isinstance(s, (str, bytes, bytearray)) or not isinstance(s, (collections.abc.Sequence, collections.deque)):
        return False
    return len(s) >= n if star else len(s) == n


def m_map(s, keys):
    return isinstance(s, collections.abc.Mapping) and all(in_(k, s) for k in keys)


def m_rest(s, keys):
    return mkdict([(k, s[k]) for k in s if not in_(k, keys)])


def m_self(cls):
    return cls in (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple)


def m_pos(s, cls, i):
    return s if m_self(cls) else getattr(s, cls.__match_args__[i])


def not_in(x, o):
    return not in_(x, o)


def sub_(a, b):
    if E.active and isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return type(a)(x for x in a if not set_has(b, x))
    if E.active and isinstance(a, (type({}.keys()), type({}.items()))):
        return mkset(x for x in a if not in_(x, b))
    if E.active and isinstance(a, collections.Counter) and isinstance(b, collections.Counter):
        return counter_op(a, b, lambda x, y: x - y)
    return a - b


def aug(op, a, b):
    """a op= b"""
    if E.active:
        if op == 'or_' and type(a).__ior__ is dict.__ior__ if isinstance(a, dict) else False:
            d_update(a, b)
            return a
        if isinstance(a, set) and isinstance(b, SETLIKE):
            r = {'or_': or_, 'sub_': sub_, 'and_': and_, 'xor': xor}[op](set(a), mkset(b))
            set.clear(a)
            set.update(a, r)
            return a
        if isinstance(a, str) and op == 'mod':
            return mod(a, b)
    return IOP[op](a, b)


IOP = {'or_': operator.ior, 'sub_': operator.isub, 'and_': operator.iand, 'xor': operator.ixor, 'mod': operator.imod}


def counter_op(a, b, f):
    out = collections.Counter()
    for x in itertools.chain(a, (y for y in b if not in_(y, a))):
        n = f(counted(a, x), counted(b, x))
        if n > 0:
            dict.__setitem__(out, x, n)
    return out


def or_(a, b):
    if E.active:
        if isinstance(a, collections.Counter) and isinstance(b, collections.Counter):
            return counter_op(a, b, max)
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return mkset(itertools.chain(a, b), type(a))
        if type(a) is dict and isinstance(b, dict):
            return mkdict([(a,), (b,)])
        if isinstance(a, SETLIKE) and isinstance(b, SETLIKE):
            return mkset(itertools.chain(a, b))
    return a | b


def and_(a, b):
    if E.active and isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return type(a)(x for x in a if set_has(b, x))
    if E.active and isinstance(a, type({}.keys())):
        return mkset(x for x in a if in_(x, b))
    if E.active and isinstance(a, collections.Counter) and isinstance(b, collections.Counter):
        return counter_op(a, b, min)
    return a & b


def xor(a, b):
    if E.active and isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return or_(sub_(a, b), sub_(b, a))
    return a ^ b


def mod(a, b):
    if isinstance(a, str) and E.active and '%r' in a and deep_sym(b):
        raise Unmodelled('%r formatting')
    return a % b


def repr_(x):
    if E.active:
        if isinstance(x, str) and has_sym(x) and type(x).__repr__ is str.__repr__:
            return S.s_repr(x)
        if type(x) in (list, tuple) and deep_sym(x):
            inner = ', '.join(repr_(y) for y in x)
            if type(x) is list:
                return '[' + inner + ']'
            return '(' + inner + (',)' if len(x) == 1 else ')')
        if type(x) is dict and deep_sym(x):
            return '{' + ', '.join(repr_(k) + ': ' + repr_(v) for k, v in x.items()) + '}'
    return repr(x)


# --------------------------------------------------------------------------- sequences
def _sort(items, key=None, reverse=False):
    items = list(items)
    keys = [call(key, x) for x in items] if key is not None else items
    if not any(deep_sym(k) for k in keys):
        idx = sorted(range(len(items)), key=lambda i: keys[i], reverse=bool(reverse))
        return [items[i] for i in idx]
    less = (lambda a, b: lt(b, a)) if reverse else lt
    out = []
    for i in range(len(items)):
        p = len(out)
        while p > 0 and less(keys[i], keys[out[p - 1]]):
            p -= 1
        out.insert(p, i)
    return [items[i] for i in out]


def b_sorted(it, *, key=None, reverse=False):
    return _sort(it, key, reverse)


_NODEF = object()


def _minmax(args, key, default, less):
    it = list(args[0]) if len(args) == 1 else list(args)
    if not it:
        if default is not _NODEF:
            return default
        raise ValueError('min()/max() arg is an empty sequence')
    best, bk = it[0], (call(key, it[0]) if key else it[0])
    for x in it[1:]:
        k = call(key, x) if key else x
        if less(k, bk):
            best, bk = x, k
    return best


def b_min(*a, key=None, default=_NODEF): return _minmax(a, key, default, lt)
def b_max(*a, key=None, default=_NODEF): return _minmax(a, key, default, lambda x, y: lt(y, x))


def b_map(f, *its):
    return (call(f, *xs) for xs in zip(*its))


def b_filter(f, it):
    if f is None:
        return (x for x in it if x)
    return (x for x in it if call(f, x))


def b_isinstance(o, t):
    if isinstance(o, SymInt):
        ts = t if isinstance(t, tuple) else (t,)
        import numbers
        for x in ts:
            if x in (int, object, SymInt) or x in (numbers.Number, numbers.Integral, numbers.Real):
                return True
        return isinstance(o, t)
    if isinstance(o, R.SymMatch):
        return t is re.Match or isinstance(o, t)
    return isinstance(o, t)


def b_ord(c):
    if isinstance(c, str) and len(c) == 1 and has_sym(c):
        return SymInt(E.syms[ord(c)].term)
    return ord(c)


def b_chr(i):
    if isinstance(i, SymInt):
        return E.new_char([(0, 0xD7FF), (0xE000, 0xFFFF)], term=i.term)
    return chr(i)


def b_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def b_hash(x):
    if deep_sym(x):
        E.notes.add('hash of a symbolic value')
    return hash(x)


def b_reduce(f, it, *init):
    return functools.reduce(lambda a, b: call(f, a, b), it, *init)


def b_getattr(o, name, *d):
    if isinstance(name, str) and has_sym(name):
        name = S.force(name)
    return getattr(o, name, *d)


def b_any(it):
    for x in it:
        if x:
            return True
    return False


def b_all(it):
    for x in it:
        if not x:
            return False
    return True


def l_index(self, x, *b):
    n = len(self)
    lo = b[0] if b else 0
    hi = b[1] if len(b) > 1 else n
    for i in range(n):
        if lo <= i < hi and (self[i] is x or eq(self[i], x)):
            return i
    raise ValueError('%s is not in list' % (x,))


def l_count(self, x):
    return sum(1 for y in self if y is x or eq(y, x))


def l_remove(self, x):
    for i, y in enumerate(self):
        if y is x or eq(y, x):
            del self[i]
            return
    raise ValueError('list.remove(x): x not in list')


def l_sort(self, *, key=None, reverse=False):
    self[:] = _sort(self, key, reverse)


def d_get(self, k, default=None):
    k = canon(k, self)
    return dict.get(self, k, default)


def d_pop(self, k, *default):
    return type(self).pop(self, canon(k, self), *default)


def d_setdefault(self, k, default=None):
    return type(self).setdefault(self, canon(k, self), default)


def d_update(self, *args, **kw):
    if args:
        o = args[0]
        if hasattr(o, 'keys'):
            for k in list(o.keys()):
                self[canon(k, self)] = o[k]
        else:
            for k, v in o:
                self[canon(k, self)] = v
    for k, v in kw.items():
        self[canon(k, self)] = v


def d_has(self, k):
    return dict.__contains__(self, canon(k, self))


def d_getitem(self, k):
    return getitem(self, k)


def d_setitem(self, k, v):
    type(self).__setitem__(self, canon(k, self), v)


def d_delitem(self, k):
    type(self).__delitem__(self, canon(k, self))


def s_add(self, x): set.add(self, canon(x, self))
def s_discard(self, x): set.discard(self, canon(x, self))
def s_remove(self, x): set.remove(self, canon(x, self))


def s_update(self, *its):
    for it in its:
        for x in it:
            s_add(self, x)


def s_union(self, *its): return mkset(itertools.chain(self, *its), type(self))


def s_difference(self, *its):
    out = type(self)(self)
    for it in its:
        it = mkset(it)
        out = type(self)(x for x in out if not set_has(it, x))
    return out


def s_intersection(self, *its):
    out = type(self)(self)
    for it in its:
        it = mkset(it)
        out = type(self)(x for x in out if set_has(it, x))
    return out


def s_issubset(self, o): return subset(self, mkset(o))
def s_issuperset(self, o): return subset(mkset(o), self)


def s_isdisjoint(self, o):
    for x in o:
        if set_has(self, x):
            return False
    return True


def s_replace(self, r):
    set.clear(self)
    set.update(self, r)


LIST_M = {'index': l_index, 'count': l_count, 'remove': l_remove, 'sort': l_sort,
          '__contains__': lambda s, x: in_(x, list(s)), '__eq__': None}
DICT_M = {'get': d_get, 'pop': d_pop, 'setdefault': d_setdefault, 'update': d_update,
          '__contains__': d_has, '__getitem__': d_getitem, '__setitem__': d_setitem, '__delitem__': d_delitem}
SET_M = {'add': s_add, 'discard': s_discard, 'remove': s_remove, 'update': s_update, 'union': s_union,
         'difference': s_difference, 'intersection': s_intersection, 'issubset': s_issubset,
         'issuperset': s_issuperset, '__contains__': set_has, 'isdisjoint': s_isdisjoint,
         'symmetric_difference': lambda s, o: xor(s, mkset(o)),
         'difference_update': lambda s, *o: s_replace(s, s_difference(s, *o)),
         'intersection_update': lambda s, *o: s_replace(s, s_intersection(s, *o)),
         'symmetric_difference_update': lambda s, o: s_replace(s, xor(s, mkset(o)))}
OP = {'eq': eq, 'ne': ne, 'lt': lt, 'le': le, 'gt': gt, 'ge': ge, 'contains': lambda o, x: in_(x, o),
      'getitem': getitem}

SAFE_BUILTINS = {'len', 'print', 'iter', 'next', 'enumerate', 'zip', 'reversed', 'setattr', 'hasattr',
                 'callable', 'id', 'abs', 'divmod', 'pow', 'round', 'issubclass', 'ceil', 'floor', 'vars',
                 'append', 'extend', 'insert', 'copy', 'keys', 'values', 'items', 'clear', 'reverse',
                 'join', 'format', 'pop', 'popitem', '__len__', '__iter__', 'deepcopy', 'getmro', 'getitem',
                 'delattr', 'format_map', 'popleft', 'appendleft', 'move_to_end', '__new__', '__init__',
                 '__setattr__', '__getattribute__', 'warn', 'decode', 'StringIO', '__reduce_ex__',
                 '__str__', '__init_subclass__', 'ljust', 'rjust', 'center', 'getvalue', 'read', 'write',
                 '__hash__', 'seek', 'send', 'throw', 'close', 'cache_clear', 'cast', 'chain', 'from_iterable'}

# lxml calls that only store or return strings
SAFE_LXML = {'set', 'get', 'xpath', 'append', 'iter', 'getparent', 'getroottree', 'getroot', 'find', 'findall',
             'iterancestors', 'itersiblings', 'iterchildren', 'iterdescendants', 'insert', 'SubElement',
             'Element', 'index', 'getnext', 'getprevious', 'remove', 'getchildren', 'itertext', 'addnext',
             'addprevious', 'replace', 'clear', 'keys', 'values', 'items', 'extend', 'getiterator', 'iterfind',
             'findtext', 'strip_tags', 'strip_elements', 'cleanup_namespaces'}

BUILTIN_F = {
    sorted: b_sorted, min: b_min, max: b_max, map: b_map, filter: b_filter, isinstance: b_isinstance,
    ord: b_ord, chr: b_chr, sum: b_sum, hash: b_hash, repr: repr_, functools.reduce: b_reduce,
    getattr: b_getattr, any: b_any, all: b_all,
}
TYPE_F = {}
FUNC_F = {}            # python functions (library) -> handler(original, args, kwargs)


def _t_int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymQuot):
            return x.__trunc__()
        if isinstance(x, str) and has_sym(x):
            return S.to_int(x)
    return int(*a, **k)


def _t_float(*a):
    if a and isinstance(a[0], str) and has_sym(a[0]):
        return float(S.force(a[0]))
    return float(*a)


def _t_set(*a):
    return mkset(a[0]) if a else set()


def _t_frozenset(*a):
    return mkset(a[0], frozenset) if a else frozenset()


def _t_dict(*a, **k):
    d = {}
    d_update(d, *a, **k)
    return d


def _t_odict(*a, **k):
    d = collections.OrderedDict()
    d_update(d, *a, **k)
    return d


def _t_ddict(*a, **k):
    d = collections.defaultdict(*a[:1])
    d_update(d, *a[1:], **k)
    return d


def counter_update(d, it=(), **k):
    if isinstance(it, dict):
        for x in it:
            x_ = canon(x, d)
            d[x_] = dict.get(d, x_, 0) + it[x]
    else:
        for x in it or ():
            x_ = canon(x, d)
            d[x_] = dict.get(d, x_, 0) + 1
    for x in k:
        d[canon(x, d)] = d[canon(x, d)] + k[x]


def _t_counter(*a, **k):
    d = collections.Counter()
    counter_update(d, *a, **k)
    return d


def _t_groupby(it, key=None):
    group, last = [], None
    for x in it:
        v = x if key is None else call(key, x)
        if group and not eq(v, last):
            yield last, iter(group)
            group = []
        if not group:
            last = v
        group.append(x)
    if group:
        yield last, iter(group)


def _t_starmap(f, it):
    for x in it:
        yield call(f, *x)


def _t_takewhile(f, it):
    for x in it:
        if not call(f, x):
            return
        yield x


def _t_dropwhile(f, it):
    dropping = True
    for x in it:
        if dropping and call(f, x):
            continue
        dropping = False
        yield x


def _t_filterfalse(f, it):
    for x in it:
        if not (x if f is None else call(f, x)):
            yield x


def _t_str(*a, **k):
    if len(a) == 1 and not k and isinstance(a[0], (list, tuple, dict)) and type(a[0]) in (list, tuple, dict) \
            and deep_sym(a[0]):
        return repr_(a[0])
    return str(*a, **k)


TYPE_F.update({int: _t_int, float: _t_float, set: _t_set, frozenset: _t_frozenset, dict: _t_dict,
               collections.OrderedDict: _t_odict, collections.defaultdict: _t_ddict, str: _t_str,
               map: b_map, filter: b_filter, collections.Counter: _t_counter, itertools.groupby: _t_groupby,
               itertools.starmap: _t_starmap, itertools.takewhile: _t_takewhile, itertools.dropwhile: _t_dropwhile,
               itertools.filterfalse: _t_filterfalse})



def h_escape(f, a, k):
    s = a[0]
    if not (isinstance(s, str) and has_sym(s)):
        return f(*a, **k)
    out = ''
    for c in s:
        if has_sym(c):
            out += '\\' + c if S.code_in(S.codes(c)[0], ESCAPED) else c
        else:
            out += re.escape(c)
    return out


ESCAPED = norm([(i, i) for i in range(128) if re.escape(chr(i)) != chr(i)])
FUNC_F[re.escape] = h_escape


def bisect_(left):
    def f(l, x, lo=0, hi=None, *, key=None):
        i, hi = lo, len(l) if hi is None else hi
        while i < hi:
            v = l[i] if key is None else call(key, l[i])
            if (ge if left else gt)(v, x):
                break
            i += 1
        return i
    return f


def insort_(left):
    def f(l, x, lo=0, hi=None, *, key=None):
        l.insert(bisect_(left)(l, x if key is None else call(key, x), lo, hi, key=key), x)
    return f


BUILTIN_F.update({bisect.bisect_left: bisect_(True), bisect.bisect_right: bisect_(False), bisect.insort_left: insort_(True),
                  bisect.insort_right: insort_(False)})
FUNC_F[heapq.nsmallest] = lambda f, a, k: _sort(a[1], *a[2:], **k)[:a[0]]
FUNC_F[heapq.nlargest] = lambda f, a, k: _sort(a[1], *a[2:], reverse=True, **k)[:a[0]]
FUNC_F[collections.Counter.update] = lambda f, a, k: counter_update(*a, **k)

RE_FUNCS = {getattr(re, n): n for n in ('match', 'search', 'fullmatch', 'findall', 'finditer', 'split', 'sub',
                                        'subn', 'compile')}
MOD_HOOKS = {}         # compiled functions of libraries


def note_native(f, a, k):
    for x in a:
        if isinstance(x, SymInt) or (isinstance(x, str) and has_sym(x)) or (
                isinstance(x, (tuple, list)) and deep_sym(x)):
            n = getattr(f, '__qualname__', None) or repr(f)
            m = getattr(f, '__module__', None) or ''
            n = (m + '.' + n) if m else n
            E.native_calls[n] = E.native_calls.get(n, 0) + 1
            return


def call(f, *a, **k):
    if not E.active:
        return f(*a, **k)
    t = type(f)
    if t is FuncT:
        h = FUNC_F.get(f)
        if h is not None:
            return h(f, a, k)
        n = RE_FUNCS.get(f)
        if n is not None:
            return re_func(n, f, a, k)
        fn = f.__code__.co_filename
        if a and 'MyCapytain' not in fn and '/verif' not in fn and '/props/' not in fn \
                and not (f.__module__ or '').endswith('__sym'):
            note_native(f, a, k)
        return f(*a, **k)
    if t is MethT:
        fn = f.__func__
        h = FUNC_F.get(fn)
        if h is not None:
            return h(fn, (f.__self__,) + a, k)
        if type(fn) is not FuncT:
            return bound(f, f.__self__, f.__name__, a, k)
        return f(*a, **k)
    if t is BuiltinT or t is BuiltinMethT:
        s = f.__self__
        if s is None or type(s) is types.ModuleType:
            h = BUILTIN_F.get(f)
            if h is not None:
                return h(*a, **k)
            h = MOD_HOOKS.get(f)
            if h is not None:
                return h(f, a, k)
            if s is operator or (s is not None and s.__name__ in ('operator', '_operator')):
                h = OP.get(f.__name__)
                if h is not None:
                    return h(*a, **k)
            if a and f.__name__ not in SAFE_BUILTINS:
                note_native(f, a, k)
            return f(*a, **k)
        return bound(f, s, f.__name__, a, k)
    if t is type or isinstance(f, type):
        h = TYPE_F.get(f)
        if h is not None:
            return h(*a, **k)
        if isinstance(f, enum.EnumMeta) and len(a) == 1 and isinstance(a[0], str) and has_sym(a[0]):
            for x in f:
                if eq(x.value, a[0]):
                    return x
        return f(*a, **k)
    if t is MethDescT:
        # str.lower(s), dict.get(d, k)
        if a:
            return bound(f.__get__(a[0]), a[0], f.__name__, a[1:], k) if isinstance(
                a[0], (str, dict, list, tuple, set, frozenset)) else f(*a, **k)
        return f(*a, **k)
    if t is WrapperT:
        return wrapper(f, f.__self__, f.__name__, a, k)
    if t is SlotT:
        if a:
            return wrapper(f.__get__(a[0]), a[0], f.__name__, a[1:], k)
        return f(*a, **k)
    if t is functools.partial:
        return call(f.func, *(f.args + a), **{**f.keywords, **k})
    if t is operator.methodcaller:
        n, *b = f.__reduce__()[1] if isinstance(f.__reduce__()[0], type) else (f.__reduce__()[0].args[0:1] + f.__reduce__()[1])
        kw = {} if isinstance(f.__reduce__()[0], type) else f.__reduce__()[0].keywords
        return call(getattr(a[0], n), *b, **kw)
    if t is operator.itemgetter:
        ks = f.__reduce__()[1]
        if len(ks) == 1:
            return getitem(a[0], ks[0])
        return tuple(getitem(a[0], x) for x in ks)
    try:
        h = MOD_HOOKS.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(f, a, k)
    if type(getattr(t, '__call__', None)) is SlotT and a:
        note_native(f, a, k)
    return f(*a, **k)



def wrapper(f, s, name, a, k):
    """method-wrapper objects: ''.__eq__, super().__contains__ ..."""
    if isinstance(s, tuple) or isinstance(s, list):
        base = tuple if isinstance(s, tuple) else list
        if name in ('__eq__', '__ne__'):
            if not isinstance(a[0], base):
                return NotImplemented
            r = seq_eq(s, a[0])
            return r if name == '__eq__' else not r
        if name == '__contains__':
            return in_(a[0], base(base.__iter__(s)))
        if name in ('__lt__', '__gt__', '__le__', '__ge__') and isinstance(a[0], base):
            x, y = base(base.__iter__(s)), base(base.__iter__(a[0]))
            return {'__lt__': lt, '__gt__': gt, '__le__': le, '__ge__': ge}[name](x, y)
    elif isinstance(s, str):
        if name in ('__eq__', '__ne__', '__lt__', '__gt__', '__le__', '__ge__'):
            if not isinstance(a[0], str):
                return NotImplemented
            x, y = str.__str__(s), str.__str__(a[0])
            return {'__eq__': eq, '__ne__': ne, '__lt__': lt, '__gt__': gt, '__le__': le, '__ge__': ge}[name](x, y)
        if name == '__contains__' and isinstance(a[0], str):
            return S.s_contains(str.__str__(s), str.__str__(a[0]))
    elif isinstance(s, dict):
        h = DICT_M.get(name)
        if name == '__getitem__':
            kk = canon(a[0], s)
            return f(kk)
        if name == '__setitem__':
            return f(canon(a[0], s), a[1])
        if name == '__delitem__':
            return f(canon(a[0], s))
        if h is not None:
            return h(s, *a, **k)
        if name == '__eq__' and isinstance(a[0], dict):
            return dict_eq(s, a[0])
    elif isinstance(s, (set, frozenset)):
        if name == '__contains__':
            return set_has(s, a[0])
    return f(*a, **k)


def bound(f, s, name, a, k):
    """built-in bound methods"""
    if isinstance(s, str):
        h = S.METHODS.get(name)
        if h is not None:
            if has_sym(s) or any(isinstance(x, str) and has_sym(x) or isinstance(x, tuple) and deep_sym(x)
                                 for x in a) or (k and any(deep_sym(x) for x in k.values())):
                a = tuple(x.__index__() if isinstance(x, SymInt) else
                          (str.__str__(x) if isinstance(x, str) else x) for x in a)
                return h(str.__str__(s), *a, **k)
            return f(*a, **k)
        if name not in SAFE_BUILTINS:
            note_native(f, (s,) + a, k)
        if name == 'format' and '!r' in s and deep_sym(a):
            raise Unmodelled('!r formatting')
        return f(*a, **k)
    if isinstance(s, dict):
        h = DICT_M.get(name)
        if h is not None:
            return h(s, *a, **k)
        if name == 'fromkeys':
            d = s() if isinstance(s, type) else {}
            for x in a[0]:
                d[canon(x, d)] = a[1] if len(a) > 1 else None
            return d
        return f(*a, **k)
    if isinstance(s, type):
        if name == 'fromkeys' and issubclass(s, dict):
            d = s()
            for x in a[0]:
                d[canon(x, d)] = a[1] if len(a) > 1 else None
            return d
        return f(*a, **k)
    if isinstance(s, list) or isinstance(s, tuple):
        h = LIST_M.get(name)
        if h is not None and E.active:
            return h(s, *a, **k)
        return f(*a, **k)
    if isinstance(s, (set, frozenset)):
        h = SET_M.get(name)
        if h is not None:
            return h(s, *a, **k)
        return f(*a, **k)
    if isinstance(s, collections.deque) and name in ('index', 'count', 'remove'):
        return LIST_M[name](s, *a)
    if isinstance(s, SETLIKE) and name == 'isdisjoint':
        return s_isdisjoint(mkset(s), *a)
    if isinstance(s, types.MappingProxyType) and name == 'get':
        return s.get(canon(a[0], s), *a[1:])
    if isinstance(s, re.Pattern):
        h = getattr(R.SymPattern, name, None)
        if h is not None and any(deep_sym(x) for x in a):
            return h(R.compile_(s), *a, **k)
        return f(*a, **k)
    for tt, h in BOUND_HOOKS:
        if isinstance(s, tt):
            return h(f, s, name, a, k)
    if name not in SAFE_BUILTINS and name not in SAFE_LXML:
        note_native(f, a, k)
    return f(*a, **k)


BOUND_HOOKS = []


def re_func(name, f, a, k):
    if not any(deep_sym(x) or isinstance(x, R.SymPattern) for x in a) and not any(deep_sym(x) for x in k.values()):
        return f(*a, **k)
    pat = a[0] if a else k.pop('pattern')
    flags = k.pop('flags', 0)
    rest = a[1:]
    if name == 'compile':
        return R.compile_(pat, rest[0] if rest else flags)
    nargs = {'match': 1, 'search': 1, 'fullmatch': 1, 'findall': 1, 'finditer': 1, 'split': 2, 'sub': 3,
             'subn': 3}[name]
    if len(rest) > nargs:
        flags = rest[nargs]
        rest = rest[:nargs]
    rx = R.compile_(pat, flags)
    return getattr(rx, name)(*rest, **k)
