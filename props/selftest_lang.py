"""Not a property: Python idioms on symbolic strings, each compared with what Python itself answers (engine self-test)."""
import re
import operator
import functools
import itertools
import collections
from collections import namedtuple, ChainMap, deque, OrderedDict, defaultdict
from collections import Counter
from dataclasses import dataclass
from enum import Enum
from urllib.parse import urlencode, quote, urlparse, unquote, urljoin, parse_qs
from bisect import bisect_left, insort
from copy import copy, deepcopy
import heapq
import string
import textwrap
from io import StringIO
from props._util import Registry

Pt = namedtuple('Pt', 'a b')


class Color(Enum):
    A = 'a'
    B = 'b'


@dataclass
class DC:
    x: str
    y: str = 'b'


@dataclass(frozen=True, order=True)
class DF:
    x: str
    y: str = 'b'


class SubStr(str):
    pass


class Slots:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return self.v == o.v

    def __hash__(self):
        return hash(self.v)


class KeyD(dict):
    def __missing__(self, k):
        return k + '!'


I = {}


def idiom(f):
    I[f.__name__] = f
    return f


@idiom
def walrus(x, y):
    if (z := x + y) and (n := len(z)) > 2:
        return z[n - 1]
    return z


@idiom
def starunpack(x, y):
    first, *rest = (x + '.' + y).split('.')
    *init, last = x + y + 'q'
    return first, rest, init, last


@idiom
def dictmerge(x, y):
    d = {x: 1, **{y: 2}}
    e = {'a': 0} | {x: 3}
    e |= {y: 5}
    return sorted(d.items()), sorted(e.items())


@idiom
def fmt(x, y):
    return f'{x!s:>4}|{y:<3}|{len(x):02d}' + '{0}{1!s}{0}'.format(x, y) + '{a}-{b:^5}'.format(a=x, b=y) + '%s/%5s' % (x, y)


@idiom
def joins(x, y):
    return '.'.join(filter(None, (x, y))), '-'.join([c for c in x if c not in y]), ''.join(reversed(x + y)), ''.join(map(str.upper, x))


@idiom
def nt(x, y):
    p = Pt(x, y)
    q = p._replace(a=y)
    return p == q, p.a, q.b, p._asdict(), p < q, tuple(p), Pt._make([x, y]) == p


@idiom
def enums(x, y):
    try:
        return Color(x).name
    except ValueError:
        return y


@idiom
def dcl(x, y):
    return DC(x) == DC(y), DC(x, y) == DC(y, x), len({DF(x), DF(y)}), DF(x, y) < DF(y, x), DF(x) in [DF(y)], {DF(x): 1}.get(DF(y))


@idiom
def slots(x, y):
    return len({Slots(x), Slots(y)}), Slots(x) in {Slots(y): 1}, Slots(x) == Slots(y)


@idiom
def missing(x, y):
    d = KeyD({x: 'v'})
    return d[y]


@idiom
def dq(x, y):
    d = deque([x, y])
    d.appendleft(y)
    d.rotate(1)
    return list(d), d.count(x), x in d, d.index(y)


@idiom
def odict(x, y):
    d = OrderedDict([(x, 1), (y, 2), ('a', 3)])
    d.move_to_end(x)
    return list(d), d.popitem(last=False), list(d.items())


@idiom
def ddict(x, y):
    d = defaultdict(list)
    d[x].append(1)
    d[y].append(2)
    d['a'].append(3)
    return sorted(d.items()), dict(d) == {x: [1]}


@idiom
def counter(x, y):
    c = Counter(x + y)
    return c.most_common(1)[0][1] if c else 0, c['a'], sorted(c.elements())


@idiom
def counters(x, y):
    return Counter(x) == Counter(y), sorted((Counter(x) & Counter(y)).items()), sorted((Counter(x) - Counter(y)).items())


@idiom
def tern(x, y):
    return (x or y or None, x and y, not x, x if x else y, x in ('a', 'b', y), x not in {'a', y})


@idiom
def tryelse(x, y):
    out = []
    try:
        i = x.index(y)
    except ValueError as e:
        out.append('no')
    else:
        out.append(i)
    finally:
        out.append('fin')
    return out


@idiom
def forelse(x, y):
    for c in x:
        if c == y:
            break
    else:
        return 'none'
    return c


@idiom
def whileelse(x, y):
    n = 0
    while x:
        x = x[1:]
        n += 1
        if x == y:
            break
    else:
        n = -1
    return n


@idiom
def gen(x, y):
    def g():
        for c in x:
            got = yield c
            if got:
                yield got
        yield from y
        return 3
    return list(g()), next(g(), None), next((c for c in x if c == 'b'), 'none')


@idiom
def closure(x, y):
    n = 0

    def inc(c):
        nonlocal n
        n += c == 'a'
    for c in x + y:
        inc(c)
    return n


@idiom
def partition(x, y):
    return (x + '.' + y).partition('.'), (x + y).rpartition('.'), x.split('a', 1), (x + y).rsplit('.', 1), (x + '\n' + y).splitlines()


@idiom
def stripping(x, y):
    return x.strip('a'), x.lstrip('.'), x.rstrip('ab'), (x + y).removeprefix('a'), (x + y).removesuffix('b'), x.replace('a', 'c', 1), x.replace('a', y)


@idiom
def tests(x, y):
    return x.isalpha(), x.isdigit(), x.isalnum(), x.startswith(('a', '.')), x.endswith(y), x.find(y), x.rfind('a'), x.count('a'), x.islower(), x.isspace(), x.isidentifier(), x.isdecimal(), x.isnumeric(), x.isupper()


@idiom
def cases(x, y):
    return x.upper(), x.title(), x.capitalize(), x.swapcase(), x.casefold() == y.casefold(), x.lower()


@idiom
def just(x, y):
    return x.ljust(3, '.'), x.rjust(3), x.center(4), x.zfill(3)


@idiom
def trans(x, y):
    return x.translate(str.maketrans('ab', 'ba')), x.translate({ord('a'): None}), x.translate(str.maketrans({'a': 'xx'}))


@idiom
def sorting(x, y):
    return sorted([x, y, 'a']), sorted([x, y], key=len), sorted([(x, 1), (y, 0)]), max(x, y), min([x, y, 'a'], key=lambda s: s[::-1]), sorted({x, y}, reverse=True)


@idiom
def sets(x, y):
    a = {x, y} & {'a', 'b'}
    b = {x} ^ {y}
    c = frozenset((x,)) | {y}
    return sorted(a), sorted(b), sorted(c), {x} <= {y, 'a'}, {x}.isdisjoint({y}), sorted({x} - {y}), {x: 1}.keys() & {y}, {x: 1}.keys() - {y} and 1


@idiom
def itert(x, y):
    return (list(itertools.chain(x, y)), list(itertools.chain.from_iterable([x, y])), list(itertools.zip_longest(x, y)), list(zip(x, y)),
            [(k, len(list(g))) for k, g in itertools.groupby(x + y)], list(itertools.accumulate(x + y)), list(itertools.product(x, y))[:1], list(itertools.islice(x + y, 1, 3)), list(itertools.pairwise(x + y)),
            list(itertools.compress(x, [1, 0])), list(enumerate(x, 1)))


@idiom
def slices(x, y):
    z = x + y
    return z[::-1], z[1:-1], z[::2], z[-1:], z[:1]


@idiom
def func(x, y):
    return functools.reduce(lambda a, b: a + b + '.', x, y), functools.partial(operator.add, x)(y), operator.itemgetter(0)((x, y)), operator.attrgetter('a')(Pt(x, y)), operator.eq(x, y), operator.contains(x, y)


@functools.lru_cache(maxsize=None)
def cached(x):
    return x + '!'


@idiom
def cache(x, y):
    return cached(x), cached(y)


@idiom
def regexes(x, y):
    m = re.match(r'(?P<h>[^.]*)(?:\.(?P<t>.*))?$', x + '.' + y)
    return m.groupdict(), m.group('h', 't'), m['h'], m.span(), m.start('t'), re.sub(r'a(b?)', lambda m: m.group(1) + 'z', x), re.split(r'[.]', x + y), re.findall(r'(a)(b)?', x + y), re.escape(x), bool(re.fullmatch('[ab]+', x))


@idiom
def regesc(x, y):
    return bool(re.match(re.escape(x) + '$', y)), re.sub(re.escape('.'), '-', x), [m.group() for m in re.finditer('[ab]', x)]


@idiom
def urls(x, y):
    return urlencode({'q': x}), quote(x), urlencode([('a', x), ('b', y)])


@idiom
def bis(x, y):
    return bisect_left(['a', 'b'], x)


@idiom
def copies(x, y):
    d = {x: [y]}
    e = deepcopy(d)
    f = copy(d)
    e[x].append(1)
    return e == d, f == d, [x, y].copy() == [y, x]


@idiom
def dictops(x, y):
    d = dict(a=1, b=2)
    d.setdefault(x, 5)
    p = d.pop(y, None)
    return sorted(d.items()), p, x in d, d.get(y, 'n'), dict.fromkeys([x, y], 0).keys() == {x, y}, list({x: 1, y: 2}.values()), dict([(x, y)]), dict(zip([x], [y])), list(reversed({x: 1, y: 2}))


@idiom
def dictdel(x, y):
    d = {'a': 1, 'b': 2}
    try:
        del d[x]
    except KeyError as e:
        return 'no', e.args == (x,)
    return d


@idiom
def excmsg(x, y):
    try:
        raise ValueError('%s is bad %r' % (x, 1))
    except (KeyError, ValueError) as e:
        return str(e), e.args


@idiom
def isinst(x, y):
    return isinstance(x, str), isinstance(x, (list, str)), type(x) is str, type(x) == str, callable(x), hasattr(x, 'strip'), getattr(x, 'upper')()


@idiom
def listops(x, y):
    l = [x, y]
    l += [x]
    l.extend(y)
    l.insert(0, y)
    l[1:2] = ['z', 'z']
    l.remove('z')
    return l, l.index('z'), l.count(x), l == [y, x], [x] * 2, [x] < [y], (x,) + (y,), l.pop() if l else None


@idiom
def nested(x, y):
    return [[c for c in s if c != 'a'] for s in (x, y) if s], {k: v for k, v in zip('ab', (x, y)) if v}, {c for c in x} == {c for c in y}


@idiom
def anyall(x, y):
    return any(c == 'a' for c in x), all(c in 'ab' for c in y), sum(1 for c in x if c == 'a'), sum(len(s) for s in (x, y)), any([x == y, x == 'a'])


@idiom
def ints(x, y):
    try:
        return int(x + '1')
    except ValueError:
        return -1


@idiom
def intfmt(x, y):
    n = len(x)
    return str(n) + x, '%d%s' % (n, y), range(n)[-1:], divmod(n, 2), list(range(len(x + y)))


@idiom
def mapping(x, y):
    return {'a': 'A', 'b': 'B'}.get(x, '?'), ['n', 'y'][x == y], ('n', 'y')[bool(x)], {True: 1, False: 0}[x == y]


@idiom
def matching(x, y):
    match x:
        case 'a':
            return 1
        case 'b' | 'ab':
            return 2
        case _ if y == 'a':
            return 3
        case _:
            return 4


@idiom
def matchtuple(x, y):
    match (x, y):
        case ('a', z):
            return z
        case (z, 'a'):
            return z + '!'
        case [p, q]:
            return p + q


@idiom
def matchmap(x, y):
    match {'k': x}:
        case {'k': 'a', **rest}:
            return rest
        case {'k': str(v)}:
            return v


@idiom
def strio(x, y):
    s = StringIO()
    s.write(x)
    s.write(y)
    print(x, file=s, end='')
    return s.getvalue()


@idiom
def encoded(x, y):
    return x.encode('utf-8').decode('utf-8') + y, str(x.encode(), 'utf-8')


@idiom
def typing_(x, y):
    a: str = x
    b: 'list' = [a]
    return b


@idiom
def template(x, y):
    return string.Template('$a-$b').substitute(a=x, b=y)


@idiom
def strsub(x, y):
    s = SubStr(x)
    return s == y, s + y, s.upper(), hash(s) == hash(x), {s: 1}.get(y)


@idiom
def augmented(x, y):
    x += y
    x *= 2
    t = ()
    t += (x,)
    return x, t


@idiom
def cmpchain(x, y):
    return '' < x <= 'b', x == y == 'a', 0 < len(x) < 2, x is not None


@idiom
def sentinel(x, y):
    it = iter(x)
    out = []
    for c in iter(lambda: next(it, None), None):
        out.append(c)
    return out


@idiom
def ctx(x, y):
    import contextlib
    with contextlib.suppress(ValueError):
        return x.index('a')
    return y


@idiom
def dumps(x, y):
    import json
    return json.dumps({'k': x})


@idiom
def lambdas(x, y):
    table = {'a': lambda s: s + '1', 'b': lambda s: s + '2'}
    return table.get(x, lambda s: s)(y)


@idiom
def setattrs(x, y):
    class O:
        pass
    o = O()
    setattr(o, 'v', x)
    o.__dict__['w'] = y
    return vars(o)['v'], getattr(o, 'w', None), getattr(o, 'u', x)


@idiom
def keyfn(x, y):
    return sorted([x, y], key=functools.cmp_to_key(lambda a, b: len(a) - len(b))), sorted([x, y], key=str.lower), max([x, y], key=len, default=None)


@idiom
def unpackcall(x, y):
    def f(*a, k='z', **kw):
        return a, k, kw
    return f(*x, **{'k': y}), f(*[x, y], m=x), '{}{}'.format(*[x, y]), '{k}'.format(**{'k': x}), '{k}'.format_map({'k': y})


@idiom
def globalst(x, y):
    return list(map(len, [x, y])), list(map(lambda a, b: a + b, [x], [y])), list(filter(lambda s: s != 'a', [x, y])), [*x, *y], {*x, *y} == set(x + y), (*x, 'q')


@idiom
def bytesj(x, y):
    return ord(x[0]) if x else 0, chr(97) == x, (x + y).expandtabs(), x.__len__(), x.__contains__('a'), x.__eq__(y), str.join('.', [x, y]), str.__add__(x, y)


@idiom
def iterdict(x, y):
    d = {x: 1}
    d.update({y: 2}, c=3)
    return [k for k in d], [(k, v) for k, v in d.items()], min(d), max(d, key=d.get), sorted(d, key=d.get, reverse=True), len(d), next(iter(d)), d.popitem()


@idiom
def tuples(x, y):
    return (x, y) == (y, x), (x, y) < (y, x), (x, y) in [(y, x)], {(x, y): 1}.get((y, x)), {(x, 'a'), ('a', y)} == {(x, 'a')}, (x, y).index(y), {(x, y): 1, ('a', 'a'): 2}[(x, y)]


@idiom
def matchmore(x, y):
    out = []
    for s in ([x], [x, y], [x, y, 'c', x], {'k': x, 'l': y}, x, Pt(x, y), DC(x, y), 3, None):
        match s:
            case ['a']:
                out.append('one a')
            case [z]:
                out.append('one ' + z)
            case [Pt(), *_]:
                out.append('no')
            case {'k': 'a' as v, 'l': w} if v != w:
                out.append(v + w)
            case {'k': v}:
                out.append(v)
            case 'a' | 'b' as v:
                out.append(v + '!')
            case DC(x='a', y=v):
                out.append('dc' + v)
            case DC(v):
                out.append('dcv' + v)
            case (p, *q, 'b'):
                out.append((p, q))
            case (p, *q):
                out.append((p, list(q)))
            case None:
                out.append(None)
            case int(n):
                out.append(n)
            case _:
                out.append('rest')
    return out


@idiom
def augs(x, y):
    s = {x}
    t = s
    s |= {y}
    s -= {'a'}
    t ^= {'b'}
    o = Slots({x: 1})
    o.v |= {y: 2}
    m = '%s-'
    m %= x
    u = {x, y}
    u &= {'a', x}
    return sorted(t), s is t, sorted(o.v.items()), m, sorted(u), {x, y}.symmetric_difference([y]) == {x}, sorted({x: 1}.keys() | {y})


VALUES = ['', 'a', 'b', '.', 'aa', 'ab', 'a.', 'ba', 'bb', 'b.', '.a', '.b', '..']


def outcome(f, x, y):
    try:
        return ('ok', f(x, y))
    except Exception as e:
        return (type(e).__name__,)


def h(sx, which):
    f = I[which]
    x = sx.str('x', (0, 2), 'ab.')
    y = sx.str('y', (0, 1), 'ab.')
    r = outcome(f, x, y)
    for v in VALUES:
        if x == v:
            for w in VALUES[:4]:
                if y == w:
                    e = outcome(f, v, w)
                    if r[0] == 'ok' and e[0] == 'ok' and type(e[1]) is tuple and len(e[1]) == len(r[1]):
                        for i in range(len(e[1])):
                            sx.check(r[1][i] == e[1][i], which + str(i))
                    else:
                        sx.check(r == e, which)


R = Registry()
for n in I:
    R.add(n, h, dict(which=n), dict(which=n), n)
names, get, bounds = R.names, R.get, R.bounds
ASSUMPTIONS = []
