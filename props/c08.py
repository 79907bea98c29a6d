"""C08 The citation tree reports its own shape correctly."""
import copy
import pickle
from MyCapytain.common.reference import Citation, CtsReference, BaseCitationSet, DtsCitation, DtsCitationSet
from MyCapytain.common.reference._base import BaseCitation
from MyCapytain.common.constants import XPATH_NAMESPACES
from MyCapytain.common.utils.xml import xmlparser
from MyCapytain.errors import CitationDepthError
from MyCapytain.resources.collections.cts import XmlCtsCitation
from props._util import Registry, raises

NAME = 'a-zA-Z0-9 _\u00e9'


def decl(n):
    return ''.join("/tei:l%d[@n='$%d']" % (i + 1, i + 1) for i in range(n))


def chain(sx, how, names):
    """a chain of citations, outermost first"""
    n = len(names)
    if how == 'constructor':
        c, out = None, []
        for i in reversed(range(n)):
            c = Citation(name=names[i], refsDecl=decl(i + 1), child=c)
            out.insert(0, c)
        return out
    if how in ('setter down', 'setter up', 'children'):
        out = [Citation(name=names[i], refsDecl=decl(i + 1)) for i in range(n)]
        idx = list(range(n - 1))
        if how == 'setter up':
            idx = idx[::-1]
        for i in idx:
            if how == 'children':
                out[i].children = [out[i + 1]]
            else:
                out[i].child = out[i + 1]
        return out
    if how == 'refsDecl':
        el = xmlparser('<tei:refsDecl xmlns:tei="http://www.tei-c.org/ns/1.0">' + ''.join(
            '<tei:cRefPattern n="" replacementPattern="#xpath(%s)"/>' % decl(i + 1) for i in reversed(range(n)))
            + '</tei:refsDecl>', objectify=False)
        for i, e in enumerate(el):
            e.set('n', names[n - 1 - i])
        c = Citation.ingest([el])
    else:
        parts = decl(n).replace('$', '?').split('/')[1:]
        text = ''
        for i in reversed(range(n)):
            d = ''.join("/tei:l%d[@n='?']" % (k + 1) for k in range(i + 1))
            text = '<ti:citation scope="%s" xpath="%s">%s</ti:citation>' % (
                d[:d.rfind('/')], d[d.rfind('/'):], text)
        el = xmlparser('<ti:online xmlns:ti="http://chs.harvard.edu/xmlns/cts">' + text + '</ti:online>',
                       objectify=False)
        for i, e in enumerate(el.iter('{http://chs.harvard.edu/xmlns/cts}citation')):
            e.set('label', names[i])
        c = XmlCtsCitation.ingest(el)
    out = [c]
    while out[-1].child is not None:
        out.append(out[-1].child)
    return out


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def h_chain(sx, ns, hows):
    n = sx.choice('levels', ns)
    names = [sx.str('name%d' % i, 1, NAME) for i in range(n)]
    cs = chain(sx, sx.choice('built by', hows), names)
    post = sx.choice('then', ['', 'pickle', 'deepcopy'])
    if post:
        c = pickle.loads(pickle.dumps(cs[0])) if post == 'pickle' else copy.deepcopy(cs[0])
        cs = [c]
        while cs[-1].child is not None:
            cs.append(cs[-1].child)
    sx.check(len(cs) == n, 'chain: nested levels')
    sx.check([c.name for c in cs] == names, 'chain: names')
    for i, c in enumerate(cs):
        sx.check(same(list(c), cs[i:]), 'chain: iteration from a level')
        sx.check(len(c) == n - i, 'chain: length from a level', got=len(c), want=n - i)
        sx.check(c.depth == n - i, 'chain: depth from a level', got=c.depth, want=n - i)
        sx.check(c.is_root() == (i == 0), 'chain: is_root')
        sx.check(c.root is cs[0], 'chain: root', level=i)
        sx.check(c.is_empty() == (i == n - 1), 'chain: is_empty')
        sx.check(c.is_set(), 'chain: is_set')
        sx.check((c.child is None) if i == n - 1 else (c.child is cs[i + 1]), 'chain: child')
        for k in range(n + 2):
            if k < n - i:
                sx.check(c[k] is cs[i + k], 'chain: item by level')
            else:
                sx.check(raises(KeyError, lambda: c[k]) is not None, 'chain: absent level refused')
        sx.check(c[-1] is cs[-1], 'chain: last level')
        sx.check(c.refsDecl == decl(i + 1), 'chain: own pattern')
    # matching
    m = sx.choice('reference depth', list(range(1, n + 2)))
    ref = '.'.join(sx.str('ref%d' % i, 1, 'a-z0-9') for i in range(m))
    if sx.bool('range'):
        ref = ref + '-' + '.'.join(['1'] * sx.choice('end depth', list(range(m, n + 2))))
    asked = CtsReference(ref) if sx.bool('as object') else ref
    for c in cs:
        if m <= n:
            sx.check(c.match(asked) is cs[m - 1], 'chain: match by depth of the reference')
        else:
            sx.check(raises(KeyError, c.match, asked) is not None, 'chain: too deep a reference refused')
    sx.check(not Citation(name=names[0]).is_set(), 'chain: without pattern not set')


SHAPES = {0: [[]]}


def forests(n):
    """ordered forests with n nodes, as nested lists"""
    if n in SHAPES:
        return SHAPES[n]
    out = []
    for first in range(n):
        for kids in forests(first):
            for rest in forests(n - 1 - first):
                out.append([kids] + rest)
    SHAPES[n] = out
    return out


def h_tree(sx, sizes, classes, builds):
    n = sx.choice('citations', sizes)
    shape = sx.choice('shape', forests(n))
    cname = sx.choice('class', classes)
    C = {'base': BaseCitation, 'dts': DtsCitation}[cname]
    S = {'base': BaseCitationSet, 'dts': DtsCitationSet}[cname]
    how = sx.choice('built by', builds)
    order = []                       # (object, level, kids)
    names = []

    def make(sh, level):
        pos = len(order)
        nm = sx.str('name%d' % pos, 1, NAME)
        names.append(nm)
        order.append(None)
        if how == 'children':
            kids = [make(k, level + 1) for k in sh]
            c = C(name=nm, children=kids or None)
        else:
            c = C(name=nm)
            kids = [make(k, level + 1) for k in sh]
            for k in kids:
                c.add_child(k)
        order[pos] = (c, level, kids)
        return c

    def dts(sh):
        pos = len(names)
        nm = sx.str('name%d' % pos, 1, NAME)
        names.append(nm)
        d = {'https://w3id.org/dts/api#citeType': [{'@value': nm}]}
        kids = [dts(k) for k in sh]
        if kids:
            d['https://w3id.org/dts/api#citeStructure'] = kids
        return d

    def collect(c, level):
        pos = len(order)
        order.append(None)
        kids = list(c.children)
        order[pos] = (c, level, kids)
        for k in kids:
            collect(k, level + 1)

    if how == 'ingest':
        s = DtsCitationSet.ingest([dts(x) for x in shape])
        tops = list(s.children)
        for t in tops:
            collect(t, 0)
        sx.check(len(order) == n, 'tree: all ingested')
    else:
        tops = [make(x, 0) for x in shape]
        if how == 'children':
            s = S(children=tops)
        else:
            s = S()
            for t in tops:
                s.add_child(t)
    objs = [o for o, _, _ in order]
    sx.check([o.name for o in objs] == names, 'tree: names')
    sx.check(same(list(s), objs), 'tree: iteration in document order', got=[c.name for c in s], want=names)
    sx.check(len(s) == n, 'tree: number of citations', got=len(s), want=n)
    sx.check(s.is_empty() == (n == 0), 'tree: set is_empty')
    sx.check(s.is_root(), 'tree: set is root')
    depth = max([l for _, l, _ in order] + [-1]) + 1
    sx.check(s.depth == depth, 'tree: depth', got=s.depth, want=depth)
    sx.check(same(list(s.children), tops), 'tree: children of the set')
    for k in range(depth):
        want = [o for o, l, _ in order if l == k]
        sx.check(same(list(s[k]), want), 'tree: level', level=k)
        sx.check(same(list(s[k - depth]), want), 'tree: level from the end', level=k - depth)
    sx.check(list(s[depth]) == [], 'tree: no level below the last')
    sx.check(raises(CitationDepthError, lambda: list(s[-depth - 1])) is not None, 'tree: too small a level refused')
    for i, (o, l, kids) in enumerate(order):
        below = [o]
        for q, l2, _ in order[i + 1:]:
            if l2 <= l:
                break
            below.append(q)
        sx.check(same(list(o), below), 'tree: iteration from a citation')
        h = max(order[objs_index(objs, b)][1] for b in below) - l + 1
        sx.check(o.depth == h, 'tree: depth of a citation', got=o.depth, want=h)
        sx.check(same(list(o.children), kids), 'tree: children of a citation')
        sx.check(o.is_empty() == (not kids), 'tree: is_empty of a citation')
        sx.check(not o.is_root(), 'tree: a citation of a set is not its root')
        sx.check(o.root is s, 'tree: root of a citation is the set', level=l)
        sx.check(o.is_set(), 'tree: is_set')
        sx.check(len(o) == len(below) - 1, 'tree: number of citations below', got=len(o), want=len(below) - 1)
        for k in range(3):
            want = [b for b in below if order[objs_index(objs, b)][1] == l + 1 + k]
            sx.check(same(list(BaseCitationSet.__getitem__(o, k)), want), 'tree: level below a citation')
    sx.observe('names', [c.name for c in s])


def h_grow(sx, n, steps, classes):
    """the shape is reported anew after every addition, whatever was asked before"""
    cname = sx.choice('class', classes)
    C = {'base': BaseCitation, 'dts': DtsCitation}[cname]
    S = {'base': BaseCitationSet, 'dts': DtsCitationSet}[cname]
    objs = [S()] + [C(name='c%d' % i) for i in range(n)]
    up = [None] * (n + 1)
    kids = [[] for _ in objs]

    def below(i):
        out = [i]
        for k in kids[i]:
            out += below(k)
        return out

    def height(i):
        return 1 + max([height(k) for k in kids[i]] + [0])

    def top(i):
        while up[i] is not None:
            i = up[i]
        return i

    def ask():
        for i, o in enumerate(objs):
            b = below(i)
            sx.check(o.depth == height(i) - (i == 0), 'grow: depth', got=o.depth, want=height(i) - (i == 0))
            sx.check(same(list(o), [objs[k] for k in b[i == 0:]]), 'grow: iteration')
            sx.check(len(o) == len(b) - 1, 'grow: number of citations')
            sx.check(same(list(o.children), [objs[k] for k in kids[i]]), 'grow: children')
            sx.check(o.is_empty() == (not kids[i]), 'grow: is_empty')
            sx.check(o.is_root() == (up[i] is None), 'grow: is_root')
            if i:
                sx.check(o.root is objs[top(i)], 'grow: root')
    for s in range(steps):
        if sx.bool('asked before %d' % s):
            ask()
        free = [i for i in range(1, n + 1) if up[i] is None]
        if not free:
            break
        i = sx.choice('added %d' % s, free)
        to = [k for k in range(n + 1) if k not in below(i)]
        j = sx.choice('to %d' % s, to)
        if sx.bool('all at once %d' % s):
            objs[j].children = [objs[k] for k in kids[j]] + [objs[i]]
        else:
            objs[j].add_child(objs[i])
        up[i] = j
        kids[j].append(i)
    ask()


def h_regrow(sx, n):
    """a chain which gets other levels"""
    cs = [Citation(name='c%d' % i, refsDecl=decl(i + 1)) for i in range(n)]
    a, b = sx.choice('levels first', list(range(1, n + 1))), sx.choice('levels then', list(range(1, n + 1)))
    for k in range(a - 1):
        cs[k].child = cs[k + 1]
    sx.check(cs[0].depth == a and len(cs[0]) == a and same(list(cs[0]), cs[:a]), 'regrow: before')
    if b < a:
        cs[b - 1].child = None
    for k in range(a - 1, b - 1):
        cs[k].child = cs[k + 1]
    for i in range(b):
        sx.check(cs[i].depth == b - i and len(cs[i]) == b - i and same(list(cs[i]), cs[i:b]), 'regrow: after', level=i)
        sx.check(cs[i].root is cs[0] and cs[i].is_root() == (i == 0), 'regrow: root')
    for k in range(n + 1):
        if k < b:
            sx.check(cs[0][k] is cs[k] and cs[b - 1].match('.'.join(['1'] * (k + 1))) is cs[k], 'regrow: item and match')
        else:
            sx.check(raises(KeyError, lambda: cs[0][k]) is not None, 'regrow: no such level')


def objs_index(objs, o):
    for i, x in enumerate(objs):
        if x is o:
            return i


R = Registry()
HOWS = ['constructor', 'setter down', 'setter up', 'children', 'refsDecl', 'inventory']
R.add('chain', h_chain, dict(ns=[1, 2, 3], hows=HOWS), dict(ns=[1, 2, 3, 4, 5], hows=HOWS),
      'chains of 1-3 levels built in six ways, matched against a reference of any depth')
R.add('tree', h_tree, dict(sizes=[0, 1, 2, 3, 4], classes=['base', 'dts'], builds=['children', 'add_child', 'ingest']),
      dict(sizes=[0, 1, 2, 3, 4, 5, 6], classes=['base', 'dts'], builds=['children', 'add_child', 'ingest']),
      'every ordered forest of up to 4 citations')
R.add('grow', h_grow, dict(n=3, steps=3, classes=['base', 'dts']), dict(n=4, steps=4, classes=['base', 'dts']), 'citations added one after the other, asked in between')
R.add('regrow', h_regrow, dict(n=4), dict(n=6), 'levels added to and removed from a chain')
names, get, bounds = R.names, R.get, R.bounds
