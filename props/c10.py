"""C10 Listing references of a local text is complete, exact and ordered."""
import warnings
from MyCapytain.common.reference import CtsReference, CtsReferenceSet
from MyCapytain.errors import CitationDepthError, DuplicateReference, EmptyReference
from props._util import Registry, raises
from props.texts import FROM, ODD, STYLED, build, snap

SHAPES = [2, 3, [2, 1], [1, 2], [1, 1, 2], [[1, 2], [1]], [[2], [1, 1]]]


def expect(sx, text, m, got, nodes, level, tag):
    want = [n.ref for n in nodes]
    have = [str(r) for r in got]
    sx.check(have == want, tag, got=have, want=want)
    sx.check(isinstance(got, CtsReferenceSet), tag + ': type')
    sx.check(all(isinstance(r, CtsReference) and not r.is_range() for r in got), tag + ': single references')
    sx.check(got.level == level, tag + ': level', got=got.level, want=level)
    sx.check(got.citation is list(text.citation.root)[level - 1], tag + ': citation of the level')


def ask(sx, text, how, level, ref):
    if how == 'getReffs':
        return text.getReffs(level=level, subreference=ref)
    return text.getValidReff(level, ref)


def h_level(sx, shapes, opts):
    o = dict(sx.choice('markup', opts))
    text, m = build(sx, sx.choice('shape', shapes), **o)
    before = snap(text.xml)
    lv = sx.choice('level', [None] + list(range(1, m.depth + 2)))
    fn = sx.choice('asked by', [text.getReffs, text.getValidReff])
    if lv is None:
        got, lv = fn(), 1
    elif lv > m.depth:
        sx.check(raises(CitationDepthError, fn, level=lv) is not None, 'too deep a level refused')
        return
    else:
        got = fn(level=lv)
    sx.observe('refs', [str(r) for r in got])
    expect(sx, text, m, got, m.level(lv), lv, 'whole text')
    other = sx.choice('asked between', list(range(1, m.depth + 1)))
    text.getReffs(level=other)
    expect(sx, text, m, fn(level=lv), m.level(lv), lv, 'asked again')
    sx.check(snap(text.xml) == before, 'source unchanged')
    sx.check([str(r) for r in text.reffs] == [n.ref for k in range(1, m.depth + 1) for n in m.level(k)], 'all references')


def h_single(sx, shapes, opts):
    o = dict(sx.choice('markup', opts))
    text, m = build(sx, sx.choice('shape', shapes), **o)
    d = sx.choice('reference depth', list(range(1, m.depth + 1)))
    comps = [sx.str('ref%d' % i, o.get('lens', 1), o.get('idtxt', 'a-zA-Z0-9')) for i in range(d)]
    ref = '.'.join(comps)
    lv = sx.choice('level', list(range(0, m.depth + 2)))
    form = sx.choice('form', ['text', 'object', 'subreference'])
    given = {'text': ref, 'object': CtsReference(ref), 'subreference': CtsReference(ref + '@word[1]')}[form]
    how = 'getReffs' if form == 'text' else sx.choice('asked by', ['getReffs', 'getValidReff'])
    want_level = lv if lv > d else d + 1
    if want_level > m.depth:
        sx.check(raises(CitationDepthError, ask, sx, text, how, lv, given) is not None, 'single: below the scheme refused')
        return
    node = m.find(comps)
    if node is None:
        sx.check(raises(KeyError, ask, sx, text, how, lv, given) is not None, 'single: unknown passage refused')
        return
    leaves = m.leaves(node)
    want = [n for n in m.within(leaves, want_level)]
    got = ask(sx, text, how, lv, given)
    sx.observe('refs', [str(r) for r in got])
    expect(sx, text, m, got, want, want_level, 'descendants')
    expect(sx, text, m, ask(sx, text, how, lv, given), want, want_level, 'descendants again')


def h_range(sx, shapes, opts, levels):
    o = dict(sx.choice('markup', opts))
    text, m = build(sx, sx.choice('shape', shapes), **o)
    before = snap(text.xml)
    nodes = m.all()
    a = nodes[sx.choice('start', list(range(len(nodes))))]
    b = nodes[sx.choice('end', list(range(len(nodes))))]
    la, lb = m.leaves(a), m.leaves(b)
    ls = m.leaves()
    if ls.index(la[0]) > ls.index(lb[0]) or ls.index(la[-1]) > ls.index(lb[-1]):
        sx.assume(False)
    lv = sx.choice('level', levels)
    ref = CtsReference(a.ref + '-' + b.ref)
    common = 0
    for x, y in zip(a.path[:-1], b.path[:-1]):
        if x == y:
            common += 1
        else:
            break
    d = len(a.path)
    want_level = {0: d, 1: d + 1}.get(lv, lv)
    if want_level <= common:
        want_level = common + 1
    how = sx.choice('asked by', ['getReffs', 'getValidReff'])
    if want_level > m.depth:
        sx.check(raises(CitationDepthError, ask, sx, text, how, lv, ref) is not None, 'range: below the scheme refused')
        return
    got = ask(sx, text, how, lv, ref)
    sx.observe('refs', [str(r) for r in got])
    expect(sx, text, m, got, m.within(m.span(a, b), want_level), want_level, 'range')
    sx.check(snap(text.xml) == before, 'range: source unchanged')


def h_unknown(sx, shapes):
    """a bound that does not exist"""
    text, m = build(sx, sx.choice('shape', shapes))
    d = sx.choice('depth', list(range(1, m.depth + 1)))
    lv = m.level(d)
    a = lv[0].path
    b = [sx.str('end%d' % i, 1, 'a-zA-Z0-9') for i in range(d)]
    sx.assume(m.find(b) is None)
    first = sx.bool('unknown bound first')
    ref = CtsReference('.'.join(b) + '-' + '.'.join(a)) if first else CtsReference('.'.join(a) + '-' + '.'.join(b))
    try:
        got = text.getReffs(level=0, subreference=ref)
    except Exception as e:
        sx.check(isinstance(e, (LookupError, CitationDepthError)), 'unknown bound: a lookup error', got=type(e).__name__)
        return
    sx.fail('unknown bound: refused', got=[str(r) for r in got])


def h_two(sx, shapes, urns):
    """two texts: what is asked of the one says nothing of the other"""
    held = []
    for i in range(2):
        held.append(build(sx, sx.choice('shape %d' % i, shapes), text='word', urn=sx.choice('urn %d' % i, urns)))
    for k in range(3):
        text, m = held[k % 2]
        nodes = m.all()
        n = nodes[sx.choice('passage %d' % k, [0, len(nodes) - 1])]
        how = sx.choice('asked %d' % k, ['level', 'below', 'range'])
        if how == 'level':
            lv = sx.choice('level %d' % k, list(range(1, m.depth + 1)))
            expect(sx, text, m, text.getReffs(level=lv), m.level(lv), lv, 'each text has its own')
        elif how == 'below':
            if n.kids:
                expect(sx, text, m, text.getReffs(level=0, subreference=CtsReference(n.ref)), n.kids, len(n.path) + 1, 'each text has its own')
        else:
            a = m.level(len(n.path))[0]
            expect(sx, text, m, text.getReffs(level=0, subreference=CtsReference(a.ref + '-' + n.ref)), m.within(m.span(a, n), len(n.path)), len(n.path), 'each text has its own')
    sx.observe('refs', [str(r) for r in text.getReffs()])


def h_debug(sx, shapes, lens, txt):
    """identifiers given twice, or empty: listed all the same, and told when asked for"""
    text, m = build(sx, sx.choice('shape', shapes), text='word', lens=lens, idtxt=txt, unique=False)
    lv = sx.choice('level', list(range(1, m.depth + 1)))
    # what an identifier designates is everything which has it
    want = [[n.n] for n in m.top]
    for k in range(1, lv):
        want = [w + [n.n] for w in want for n in m.level(k + 1) if all(a == b for a, b in zip(w, n.path))]
    with warnings.catch_warnings(record=True) as told:
        warnings.simplefilter('always')
        got = text.getValidReff(lv, _debug=True)
        loud = [(w.category, str(w.message)) for w in told]
        again = text.getValidReff(lv) if sx.bool('by getValidReff') else text.getReffs(lv)
    have = ['' if r is None else str(r) for r in got]
    sx.observe('refs', have)
    sx.check(have == ['.'.join(w) for w in want], 'everything which has an identifier', got=have, want=want)
    sx.check(['' if r is None else str(r) for r in again] == have and len(told) == len(loud), 'the same, and no warning, without debugging', got=told)
    twice = any(have[i] == have[j] for i in range(len(have)) for j in range(i))
    empty = len([w for w in want if w[-1] == ''])
    kinds = [c for c, _ in loud]
    sx.check(kinds.count(DuplicateReference) == (1 if twice else 0), 'duplicates are told exactly when there are', got=kinds, want=twice)
    sx.check(kinds.count(EmptyReference) == (1 if empty else 0), 'empty identifiers are told exactly when there are', got=kinds, want=empty)
    sx.check(len(kinds) == (1 if twice else 0) + (1 if empty else 0), 'and nothing else is')
    for c, msg in loud:
        if c is EmptyReference:
            sx.check(str(msg).startswith(str(empty) + ' '), 'how many are empty', got=msg, want=empty)
        else:
            named = str(msg).split(', ')
            sx.check(sorted(named) == sorted({h for i, h in enumerate(have) if h in have[:i]}), 'which are duplicates', got=named)


R = Registry()
PLAIN = {}
DEEP = {'seps': ('/', '//', '//'), 'wrap': True, 'noise': True, 'text': 'same'}
HEADER = {'header': True, 'noise': True, 'text': 'numbers', 'seps': ('//', '/', '/'), 'tags': ('div', 'lg', 'l')}
XMLID = {'attr': 'xml:base', 'text': 'word', 'objectify': False, 'distract': True}
R.add('level', h_level, dict(shapes=SHAPES, opts=[PLAIN, DEEP, HEADER, XMLID]),
      dict(shapes=SHAPES + [4, [2, 2, 1], [[1], [2, 1], [1]]], opts=[PLAIN, DEEP, HEADER, XMLID]),
      'texts of 1-3 levels')
R.add('four', h_level, None, dict(shapes=[[[[2, 1], [1]], [[1]]], [[[1, 1]], [[1], [1]]]], opts=[PLAIN, XMLID]), 'texts of four levels', tiers=('thorough',))
R.add('single', h_single, dict(shapes=[2, [1, 2], [[1, 1], [1]]], opts=[dict(text='word'), DEEP]),
      dict(shapes=SHAPES, opts=[dict(text='word'), DEEP, HEADER, XMLID]), 'any one-passage reference')
R.add('range', h_range, dict(shapes=[3, [2, 1], [[1, 1], [1]]], opts=[dict(text='word', seps=('/', '/', '/')), dict(text='same', noise=True)], levels=[0, 1, 2, 3]),
      dict(shapes=SHAPES + [[2, 2, 1]], opts=[dict(text='word'), dict(text='same', noise=True), DEEP, dict(text='numbers')], levels=[0, 1, 2, 3, 4]),
      'any range of existing passages')
LONG = {'lens': (1, 2), 'text': 'word', 'idtxt': '1a'}
STRANGE = {'idtxt': ODD, 'text': 'word'}
RAGGED = [[0, 2], [2, 0], [1, 0, 1], [[1, 0], [2]]]
R.add('long', h_level, dict(shapes=[2, [2, 1], [1, 2]], opts=[LONG, STRANGE]), dict(shapes=[3, [2, 1], [1, 2], [[2], [1]]], opts=[LONG, STRANGE]), 'identifiers of one or two letters, or odd ones')
R.add('ragged', h_level, dict(shapes=RAGGED, opts=[PLAIN]), dict(shapes=RAGGED, opts=[PLAIN, DEEP, HEADER]), 'passages without passages')
R.add('long range', h_range, dict(shapes=[[2, 1]], opts=[LONG, STRANGE], levels=[0, 2]), dict(shapes=[[2, 1], 3], opts=[LONG, STRANGE], levels=[0, 1, 2]), 'ranges of them')
R.add('long single', h_single, dict(shapes=[2, [2, 1]], opts=[dict(LONG, idtxt='1a'), STRANGE]), dict(shapes=[2, [2, 1], [[1], [2]]], opts=[LONG, STRANGE]), 'any reference among them')
R.add('ragged single', h_single, dict(shapes=RAGGED[:2], opts=[dict(text='word')]), dict(shapes=RAGGED, opts=[dict(text='word'), DEEP]), 'any reference, passages without passages')
R.add('from', h_level, dict(shapes=[2, [1, 2]], opts=FROM), dict(shapes=[3, [1, 2], [[1, 1], [2]]], opts=FROM), 'schemes which do not name every element')
R.add('from range', h_range, dict(shapes=[[2, 1]], opts=[dict(o, ids_fixed=True) for o in FROM], levels=[0, 1, 2]), dict(shapes=[3, [2, 1], [[1, 1], [2]]], opts=FROM, levels=[0, 1, 2, 3]), 'ranges of them')
R.add('styles', h_level, dict(shapes=[2, [1, 2]], opts=STYLED), dict(shapes=[3, [1, 2], [[1, 1], [2]]], opts=STYLED), 'schemes with other tests')
R.add('styles single', h_single, dict(shapes=[[1, 2]], opts=STYLED), dict(shapes=[2, [1, 2], [[1, 1], [2]]], opts=STYLED), 'any reference among them')
GIVEN = [dict(given=['tree', 'text', 'file'], text='word'), dict(given=['tree'], text='word', objectify=False)]
R.add('given', h_level, dict(shapes=[2, [1, 2]], opts=GIVEN), dict(shapes=[3, [1, 2], [[1, 1], [2]]], opts=GIVEN), 'texts given as a tree, a string or a file')
R.add('given range', h_range, dict(shapes=[[2, 1]], opts=[dict(o, ids_fixed=True) for o in GIVEN], levels=[0, 2]), dict(shapes=[3, [2, 1]], opts=GIVEN, levels=[0, 1, 2]), 'ranges of them')
R.add('two', h_two, dict(shapes=[2, [1, 1]], urns=['urn:cts:lat:a.b.c']), dict(shapes=[2, [1, 2]], urns=['urn:cts:lat:a.b.c', 'urn:cts:lat:a.b.d', None]), 'two texts')
R.add('debug', h_debug, dict(shapes=[2, 3, [1, 1], [2, 1]], lens=(0, 1), txt='12'), dict(shapes=[3, 4, [2, 1], [1, 1, 1], [[1, 1], [1]]], lens=(0, 1), txt='12'), 'duplicate and empty identifiers')
R.add('unknown', h_unknown, dict(shapes=[2, [1, 2]]), dict(shapes=SHAPES), 'ranges with an unknown bound')
names, get, bounds = R.names, R.get, R.bounds
