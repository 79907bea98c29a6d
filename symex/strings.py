"""Models of str operations over strings that contain symbolic characters."""
import unicodedata
import z3
from .core import (E, Sym, SymInt, BASE_CH, BASE, has_sym, Unmodelled, PathLimit, inter, minus, norm,
                   dom_has, dom_size, in_dom_term)


def codes(s):
    """str -> list of code points (int) and symbolic characters (Sym)."""
    out = []
    syms = E.syms
    for ch in str.__str__(s):
        if ch >= BASE_CH:
            y = syms.get(ord(ch))
            if y is None:
                out.append(ord(ch))
            else:
                d = y.dom
                if len(d) == 1 and d[0][0] == d[0][1]:
                    out.append(d[0][0])
                else:
                    out.append(y)
        else:
            out.append(ord(ch))
    return out


def pair_cond(a, b):
    """z3 condition / bool for equality of two character codes."""
    if a is b:
        return True
    if not isinstance(a, int) and len(a.dom) == 1 and a.dom[0][0] == a.dom[0][1]:
        a = a.dom[0][0]
    if not isinstance(b, int) and len(b.dom) == 1 and b.dom[0][0] == b.dom[0][1]:
        b = b.dom[0][0]
    ia, ib = isinstance(a, int), isinstance(b, int)
    if ia and ib:
        return a == b
    if ia:
        a, b, ia, ib = b, a, ib, ia
    if ib:
        if not dom_has(a.dom, b):
            return False
    else:
        if b.cp < a.cp:
            a, b = b, a
        v = E.pairs.get((a.cp, b.cp))
        if v is not None:
            return v
        if a.term.eq(b.term):
            return True
        if not inter(a.dom, b.dom):
            return False
    if a.var is None or (not ib and b.var is None):
        return a.term == (b if ib else b.term)
    key = (a.var, b) if ib else (a.var, b.var, 0)
    c = E.eq_terms.get(key)
    if c is None:
        c = E.eq_terms[key] = (a.term == (b if ib else b.term))
    return c


def settle_eq(pairs, val):
    """Narrow domains after an equality over `pairs` was decided."""
    if val:
        for a, b in pairs:
            ia, ib = isinstance(a, int), isinstance(b, int)
            if ia and ib:
                continue
            if ia:
                b.dom = [(a, a)]
            elif ib:
                a.dom = [(b, b)]
            else:
                d = inter(a.dom, b.dom)
                a.dom = d
                b.dom = d
                E.pairs[(a.cp, b.cp) if a.cp < b.cp else (b.cp, a.cp)] = True
    elif len(pairs) == 1:
        a, b = pairs[0]
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            if not isinstance(a, int):
                a.dom = minus(a.dom, [(b, b)])
        else:
            E.pairs[(a.cp, b.cp) if a.cp < b.cp else (b.cp, a.cp)] = False


def codes_eq(x, y):
    if len(x) != len(y):
        return False
    conds, pairs = [], []
    for a, b in zip(x, y):
        c = pair_cond(a, b)
        if c is False:
            return False
        if c is True:
            continue
        conds.append(c)
        pairs.append((a, b))
    if not conds:
        return True
    v = E.decide(conds[0] if len(conds) == 1 else z3.And(*conds))
    settle_eq(pairs, v)
    return v


def str_eq(a, b):
    if str.__len__(a) != str.__len__(b):
        return False
    if str.__eq__(a, b):
        return True
    if not (has_sym(a) or has_sym(b)):
        return False
    return codes_eq(codes(a), codes(b))


def code_in(c, dom):
    """Is this character (code) a member of the interval set?"""
    if isinstance(c, int):
        return dom_has(dom, c)
    ins = inter(c.dom, dom)
    if not ins:
        return False
    outs = minus(c.dom, dom)
    if not outs:
        return True
    # use the smaller description
    if len(ins) <= len(outs):
        v = E.decide(in_dom_term(c.term, ins))
    else:
        v = not E.decide(in_dom_term(c.term, outs))
    c.dom = ins if v else outs
    return v


def code_is(c, cp):
    if isinstance(c, int):
        return c == cp
    p = pair_cond(c, cp)
    if p is True or p is False:
        return p
    v = E.decide(p)
    settle_eq([(c, cp)], v)
    return v


def T(c):
    return z3.IntVal(c) if isinstance(c, int) else c.term


def codes_lt(x, y, or_equal=False):
    """lexicographic x < y (or <=)."""
    i = 0
    n = min(len(x), len(y))
    while i < n:
        a, b = x[i], y[i]
        c = pair_cond(a, b)
        if c is True:
            i += 1
            continue
        if c is False:
            if isinstance(a, int) and isinstance(b, int):
                return a < b
        da = [(a, a)] if isinstance(a, int) else a.dom
        db = [(b, b)] if isinstance(b, int) else b.dom
        if da[-1][1] < db[0][0]:
            return True
        if db[-1][1] < da[0][0]:
            return False
        if c is not False:
            e = E.decide(c)
            settle_eq([(a, b)], e)
            if e:
                i += 1
                continue
        return E.decide(T(a) < T(b))
    if len(x) == len(y):
        return or_equal
    return len(x) < len(y)


def str_lt(a, b):
    if not (has_sym(a) or has_sym(b)):
        return str.__lt__(a, b)
    return codes_lt(codes(a), codes(b))


def str_le(a, b):
    if not (has_sym(a) or has_sym(b)):
        return str.__le__(a, b)
    return codes_lt(codes(a), codes(b), True)


# --------------------------------------------------------------------------- character classes
_CLASSES = {}
LIMIT = 0x10000


def cls(name):
    """Interval set (BMP) of a unicode predicate."""
    r = _CLASSES.get(name)
    if r is not None:
        return r
    if name == 'ws':
        f = str.isspace
    elif name == 'word':
        def f(ch): return ch.isalnum() or ch == '_'
    elif name == 'linebreak':
        r = norm([(10, 13), (28, 30), (0x85, 0x85), (0x2028, 0x2029)])
        _CLASSES[name] = r
        return r
    elif name == 'cased':
        def f(ch): return ch.isupper() or ch.islower() or ch.istitle()
    else:
        f = getattr(str, name)
    out = []
    start = None
    for i in range(LIMIT):
        if f(chr(i)):
            if start is None:
                start = i
        elif start is not None:
            out.append((start, i - 1))
            start = None
    if start is not None:
        out.append((start, LIMIT - 1))
    _CLASSES[name] = out
    return out


def code_class(c, name):
    if isinstance(c, int):
        if name == 'ws':
            return chr(c).isspace()
        if name == 'word':
            return chr(c).isalnum() or c == 95
        if name == 'linebreak' or name == 'cased':
            return dom_has(cls(name), c)
        return getattr(chr(c), name)()
    d = c.dom
    if d[-1][1] < 128:
        return code_in(c, inter(cls(name), [(0, 127)]))
    return code_in(c, cls(name))


# --------------------------------------------------------------------------- case mapping
def map_code(c, f):
    """Apply a case mapping to one character; returns a string."""
    if isinstance(c, int):
        return f(chr(c))
    # runs of constant offset
    if dom_size(c.dom) > 70000:
        raise Unmodelled('case mapping over a large domain')
    runs, multi = [], []
    for a, b in c.dom:
        for k in range(a, b + 1):
            m = f(chr(k))
            if len(m) != 1:
                multi.append((k, k))
                continue
            delta = ord(m) - k
            if runs and runs[-1][2] == delta and runs[-1][1] == k - 1:
                runs[-1][1] = k
            else:
                runs.append([k, k, delta])
    if multi:
        if code_in(c, norm(multi)):
            v = E.concretise(c.term)
            c.dom = [(v, v)]
            return f(chr(v))
        return map_code(c, f)
    if len(runs) > 60:
        # split: ASCII part symbolically, the rest by value
        if code_in(c, [(0, 127)]):
            return map_code(c, f)
        changed = norm([(a, b) for a, b, dl in runs if dl and a > 127])
        if not code_in(c, changed):
            return chr(c.cp)
        v = E.concretise(c.term)
        c.dom = [(v, v)]
        return f(chr(v))
    if all(r[2] == 0 for r in runs):
        return chr(c.cp)
    term = None
    for a, b, dl in reversed(runs):
        t = c.term + dl
        term = t if term is None else z3.If(z3.And(c.term >= a, c.term <= b), t, term)
    dom = norm([(a + dl, b + dl) for a, b, dl in runs])
    return E.new_char(dom, term=term)


def case_map(s, f):
    return ''.join(map_code(c, f) for c in codes(s))


def s_lower(s): return case_map(s, str.lower)
def s_upper(s): return case_map(s, str.upper)
def s_casefold(s): return case_map(s, str.casefold)
def s_swapcase(s): return case_map(s, str.swapcase)


def s_capitalize(s):
    cs = codes(s)
    if not cs:
        return ''
    return map_code(cs[0], str.capitalize) + ''.join(map_code(c, str.lower) for c in cs[1:])


def s_title(s):
    out = []
    prev = False
    for c in codes(s):
        cased = code_class(c, 'cased')
        if cased:
            out.append(map_code(c, str.lower if prev else str.title))
        else:
            out.append(chr(c) if isinstance(c, int) else chr(c.cp))
        prev = cased
    return ''.join(out)


def _all(s, name):
    cs = codes(s)
    if not cs:
        return False
    for c in cs:
        if not code_class(c, name):
            return False
    return True


def s_isdigit(s): return _all(s, 'isdigit')
def s_isdecimal(s): return _all(s, 'isdecimal')
def s_isnumeric(s): return _all(s, 'isnumeric')
def s_isalpha(s): return _all(s, 'isalpha')
def s_isalnum(s): return _all(s, 'isalnum')

def s_isidentifier(s):
    if not len(codes(s)):
        return False
    rest = list(codes(s))
    if not (code_class(rest[0], 'isalpha') or code_in(rest[0], [(95, 95)])):
        return False
    return all(code_class(c, 'isalnum') or code_in(c, [(95, 95)]) for c in rest[1:])


def s_isspace(s): return _all(s, 'isspace')


def s_isprintable(s):
    return all(code_class(c, 'isprintable') for c in codes(s))


def s_isascii(s):
    return all(code_in(c, [(0, 127)]) for c in codes(s))


def s_islower(s):
    some = False
    for c in codes(s):
        if code_class(c, 'isupper'):
            return False
        if code_class(c, 'islower'):
            some = True
    return some


def s_isupper(s):
    some = False
    for c in codes(s):
        if code_class(c, 'islower'):
            return False
        if code_class(c, 'isupper'):
            some = True
    return some


# --------------------------------------------------------------------------- searching
def _bounds(n, start, end):
    start = 0 if start is None else int(start)
    end = n if end is None else int(end)
    if start < 0:
        start = max(0, start + n)
    if end < 0:
        end = max(0, end + n)
    return start, min(end, n)


def s_find(s, sub, start=None, end=None):
    a, b = codes(s), codes(sub)
    lo, hi = _bounds(len(a), start, end)
    m = len(b)
    if lo > len(a):
        return -1
    for i in range(lo, hi - m + 1):
        if codes_eq(a[i:i + m], b):
            return i
    return -1


def s_rfind(s, sub, start=None, end=None):
    a, b = codes(s), codes(sub)
    lo, hi = _bounds(len(a), start, end)
    m = len(b)
    if lo > len(a):
        return -1
    for i in range(hi - m, lo - 1, -1):
        if codes_eq(a[i:i + m], b):
            return i
    return -1


def s_index(s, sub, start=None, end=None):
    r = s_find(s, sub, start, end)
    if r < 0:
        raise ValueError('substring not found')
    return r


def s_rindex(s, sub, start=None, end=None):
    r = s_rfind(s, sub, start, end)
    if r < 0:
        raise ValueError('substring not found')
    return r


def s_contains(s, sub):
    return s_find(s, sub) >= 0


def s_count(s, sub, start=None, end=None):
    a, b = codes(s), codes(sub)
    lo, hi = _bounds(len(a), start, end)
    m = len(b)
    if m == 0:
        return max(0, hi - lo + 1)
    n, i = 0, lo
    while i <= hi - m:
        if codes_eq(a[i:i + m], b):
            n += 1
            i += m
        else:
            i += 1
    return n


def s_startswith(s, prefix, start=None, end=None):
    if isinstance(prefix, tuple):
        for p in prefix:
            if s_startswith(s, p, start, end):
                return True
        return False
    lo, hi = _bounds(len(s), start, end)
    if lo > len(s) or hi - lo < len(prefix):
        return False
    return codes_eq(codes(s)[lo:lo + len(prefix)], codes(prefix))


def s_endswith(s, suffix, start=None, end=None):
    if isinstance(suffix, tuple):
        for p in suffix:
            if s_endswith(s, p, start, end):
                return True
        return False
    lo, hi = _bounds(len(s), start, end)
    if lo > len(s) or hi - lo < len(suffix):
        return False
    return codes_eq(codes(s)[hi - len(suffix):hi], codes(suffix))


def s_removeprefix(s, p):
    return str(s)[len(p):] if s_startswith(s, p) else str(s)


def s_removesuffix(s, p):
    return str(s)[:len(s) - len(p)] if p and s_endswith(s, p) else str(s)


def s_partition(s, sep):
    i = s_find(s, sep)
    s = str.__str__(s)
    if i < 0:
        return s, '', ''
    return s[:i], sep, s[i + len(sep):]


def s_rpartition(s, sep):
    i = s_rfind(s, sep)
    s = str.__str__(s)
    if i < 0:
        return '', '', s
    return s[:i], sep, s[i + len(sep):]


def s_split(s, sep=None, maxsplit=-1):
    s = str.__str__(s)
    maxsplit = int(maxsplit)
    if sep is None:
        return _split_ws(s, maxsplit)
    if len(sep) == 0:
        raise ValueError('empty separator')
    a, b = codes(s), codes(sep)
    m = len(b)
    out, i, last = [], 0, 0
    while i <= len(a) - m:
        if maxsplit >= 0 and len(out) >= maxsplit:
            break
        if codes_eq(a[i:i + m], b):
            out.append(s[last:i])
            i += m
            last = i
        else:
            i += 1
    out.append(s[last:])
    return out


def _split_ws(s, maxsplit):
    a = codes(s)
    out, i, n = [], 0, len(a)
    while True:
        while i < n and code_class(a[i], 'ws'):
            i += 1
        if i >= n:
            return out
        if maxsplit >= 0 and len(out) >= maxsplit:
            j = n
            while j > i and code_class(a[j - 1], 'ws'):
                j -= 1
            # str.split keeps trailing whitespace of the remainder
            out.append(s[i:])
            return out
        j = i
        while j < n and not code_class(a[j], 'ws'):
            j += 1
        out.append(s[i:j])
        i = j


def s_rsplit(s, sep=None, maxsplit=-1):
    s = str.__str__(s)
    maxsplit = int(maxsplit)
    if maxsplit < 0:
        return s_split(s, sep)
    if sep is None:
        raise Unmodelled('rsplit on whitespace with a limit')
    if len(sep) == 0:
        raise ValueError('empty separator')
    a, b = codes(s), codes(sep)
    m = len(b)
    out, end = [], len(a)
    i = len(a) - m
    while i >= 0 and len(out) < maxsplit:
        if codes_eq(a[i:i + m], b):
            out.append(s[i + m:end])
            end = i
            i -= m
        else:
            i -= 1
    out.append(s[:end])
    out.reverse()
    return out


def s_splitlines(s, keepends=False):
    s = str.__str__(s)
    a = codes(s)
    out, last, i = [], 0, 0
    while i < len(a):
        if code_class(a[i], 'linebreak'):
            j = i + 1
            if code_is(a[i], 13) and j < len(a) and code_is(a[j], 10):
                j += 1
            out.append(s[last:j] if keepends else s[last:i])
            last = i = j
        else:
            i += 1
    if last < len(a):
        out.append(s[last:])
    return out


def s_replace(s, old, new, count=-1):
    s = str.__str__(s)
    count = int(count)
    a, b = codes(s), codes(old)
    m = len(b)
    if m == 0:
        if count < 0:
            count = len(a) + 1
        out = []
        for k in range(len(a) + 1):
            if k < count:
                out.append(new)
            if k < len(a):
                out.append(s[k])
        return ''.join(out)
    out, i, last, n = [], 0, 0, 0
    while i <= len(a) - m:
        if 0 <= count <= n:
            break
        if codes_eq(a[i:i + m], b):
            out.append(s[last:i])
            out.append(new)
            i += m
            last = i
            n += 1
        else:
            i += 1
    out.append(s[last:])
    return ''.join(out)


def _stripper(s, set_, left, right):
    s = str.__str__(s)
    a = codes(s)
    if set_ is None:
        def test(c): return code_class(c, 'ws')
    else:
        sc = codes(set_)
        if all(isinstance(x, int) for x in sc):
            d = norm([(x, x) for x in sc])

            def test(c): return code_in(c, d)
        else:
            def test(c): return any(codes_eq([c], [x]) for x in sc)
    i, j = 0, len(a)
    if left:
        while i < j and test(a[i]):
            i += 1
    if right:
        while j > i and test(a[j - 1]):
            j -= 1
    return s[i:j]


def s_strip(s, c=None): return _stripper(s, c, True, True)
def s_lstrip(s, c=None): return _stripper(s, c, True, False)
def s_rstrip(s, c=None): return _stripper(s, c, False, True)


def s_zfill(s, width):
    s = str.__str__(s)
    n = int(width) - len(s)
    if n <= 0:
        return s
    if s and code_in(codes(s)[0], [(43, 43), (45, 45)]):
        return s[0] + '0' * n + s[1:]
    return '0' * n + s


def s_translate(s, table):
    out = []
    for c in codes(s):
        if isinstance(c, int):
            out.append(chr(c).translate(table))
            continue
        hit = False
        for k, v in table.items():
            if code_is(c, k):
                out.append('' if v is None else (chr(v) if isinstance(v, int) else v))
                hit = True
                break
        if not hit:
            out.append(chr(c.cp))
    return ''.join(out)


def s_encode(s, encoding='utf-8', errors='strict'):
    if encoding.lower().replace('_', '-') in ('utf-8', 'utf8'):
        # symbolic characters travel through UTF-8 as themselves
        return str.encode(s, 'utf-8', errors)
    if encoding.lower() in ('ascii', 'us-ascii'):
        for c in codes(s):
            if not code_in(c, [(0, 127)]):
                raise UnicodeEncodeError('ascii', str(s), 0, 1, 'ordinal not in range(128)')
        return str.encode(s, 'utf-8')
    raise Unmodelled('encode ' + encoding)


METHODS = {
    'find': s_find, 'rfind': s_rfind, 'index': s_index, 'rindex': s_rindex, 'count': s_count,
    'startswith': s_startswith, 'endswith': s_endswith, 'split': s_split, 'rsplit': s_rsplit,
    'splitlines': s_splitlines, 'partition': s_partition, 'rpartition': s_rpartition,
    'replace': s_replace, 'strip': s_strip, 'lstrip': s_lstrip, 'rstrip': s_rstrip,
    'lower': s_lower, 'upper': s_upper, 'casefold': s_casefold, 'swapcase': s_swapcase,
    'title': s_title, 'capitalize': s_capitalize, 'isdigit': s_isdigit, 'isdecimal': s_isdecimal,
    'isnumeric': s_isnumeric, 'isalpha': s_isalpha, 'isalnum': s_isalnum, 'isidentifier': s_isidentifier, 'isspace': s_isspace,
    'islower': s_islower, 'isupper': s_isupper, 'isprintable': s_isprintable, 'isascii': s_isascii,
    'removeprefix': s_removeprefix, 'removesuffix': s_removesuffix, 'zfill': s_zfill,
    'translate': s_translate, 'encode': s_encode, '__contains__': s_contains,
}


# --------------------------------------------------------------------------- int()
def _decimal_runs():
    r = _CLASSES.get('decruns')
    if r is None:
        r = [(a, b) for a, b in cls('isdecimal')]
        # every run of decimal digits is a multiple of ten code points, starting with zero
        out = []
        for a, b in r:
            k = a
            while k <= b:
                out.append(k)
                k += 10
        r = _CLASSES['decruns'] = out
    return r


def to_int(s):
    """int(s) for a string with symbolic characters."""
    cs = codes(s)
    i, j = 0, len(cs)
    while i < j and code_class(cs[i], 'ws'):
        i += 1
    while j > i and code_class(cs[j - 1], 'ws'):
        j -= 1

    def bad():
        return ValueError('invalid literal for int() with base 10')
    neg = False
    if i < j and code_in(cs[i], [(43, 43), (45, 45)]):
        neg = code_is(cs[i], 45)
        i += 1
    if i >= j:
        raise bad()
    total = None
    last_us = True
    for c in cs[i:j]:
        if code_is(c, 95):
            if last_us:
                raise bad()
            last_us = True
            continue
        last_us = False
        if not code_class(c, 'isdecimal'):
            raise bad()
        if isinstance(c, int):
            d = unicodedata.decimal(chr(c))
        else:
            runs = [z for z in _decimal_runs() if inter(c.dom, [(z, z + 9)])]
            d = None
            for z in runs:
                t = c.term - z
                d = t if d is None else z3.If(z3.And(c.term >= z, c.term <= z + 9), t, d)
        total = d if total is None else total * 10 + d
    if last_us:
        raise bad()
    if isinstance(total, int):
        return -total if neg else total
    return SymInt(-total if neg else total)


# --------------------------------------------------------------------------- substitution by value
def resolve(s, specials):
    """Replace each symbolic character that may equal one of `specials` (interval set): decide
    whether it does and, if so, substitute the concrete character."""
    if not has_sym(s):
        return s
    out = []
    for c in codes(s):
        if isinstance(c, int):
            out.append(chr(c))
        elif code_in(c, specials):
            d = c.dom
            if dom_size(d) == 1:
                out.append(chr(d[0][0]))
            else:
                done = False
                for a, b in d:
                    for k in range(a, b + 1):
                        if code_is(c, k):
                            out.append(chr(k))
                            done = True
                            break
                    if done:
                        break
        else:
            out.append(chr(c.cp))
    return ''.join(out)


def force(s):
    """Fork until the string is fully concrete."""
    out = []
    for c in codes(s):
        if isinstance(c, int):
            out.append(chr(c))
        else:
            v = E.concretise(c.term)
            c.dom = [(v, v)]
            out.append(chr(v))
    return ''.join(out)


def s_repr(s):
    """repr() of a string with symbolic characters."""
    if not has_sym(s):
        return str.__repr__(s)
    t = resolve(s, norm([(39, 39), (34, 34), (92, 92), (9, 10), (13, 13)]))
    q = '"' if ("'" in t and '"' not in t) else "'"
    out = [q]
    for ch in t:
        if ch >= BASE_CH and ord(ch) in E.syms:
            c = E.syms[ord(ch)]
            if not code_class(c, 'isprintable'):
                out.append(repr(force(ch))[1:-1])
            else:
                out.append(ch)
        elif ch == q or ch == '\\':
            out.append('\\' + ch)
        else:
            out.append(repr(ch)[1:-1] if ch not in '\'"' else ch)
    out.append(q)
    return ''.join(out)
