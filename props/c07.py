"""C07 Filling a citation gives an XPath that selects exactly that passage."""
from MyCapytain.common.reference import Citation, CtsReference
from MyCapytain.common.constants import XPATH_NAMESPACES
from MyCapytain.common.utils.xml import xmlparser
from props._util import Registry
from props.c06 import NAME, VALUE

# everything a component of a reference can hold (the separators of a reference and quotes aside)
COMP = 'a-zA-Z0-9_ \\\\$?*+()[]{}<>&,;:!/=|"\u00e9\u03b1-\u03c9'
COMP = [(32, 38), (40, 44), (47, 63), (65, 126), (0xE0, 0xFF), (0x3B1, 0x3C9)]
VAL7 = 'a-zA-Z0-9_ .'
QUOTES = ["'", '"']
SLASHED = ["\\'"]


def pattern(sx, ns, lens, quotes, extras):
    """pieces: list of constant text / place-holder numbers"""
    n = sx.choice('levels', ns)
    q = sx.choice('quote', quotes)
    pieces = ['/tei:TEI//tei:body']
    for i in range(n):
        ex = sx.choice('%d.extra' % i, extras)
        pre = '/tei:' + sx.str('%d.name' % i, 1, NAME)
        post = ''
        if ex == 'before':
            pre = pre + '[@type=' + q + sx.str('%d.value' % i, lens, VAL7) + q + ']'
        if ex == 'after':
            post = '[@type=' + q + sx.str('%d.value' % i, lens, VAL7) + q + ']'
        attr = sx.choice('%d.attr' % i, ['n', 'xml:id', 'n2']) if i == 0 else 'n'
        pieces += [pre + '[', ('@' + attr, q), ']' + post]
    return n, pieces


def render(pieces, values, mark='$'):
    out = ''
    i = 0
    for p in pieces:
        if isinstance(p, tuple):
            if mark == '$':
                out = out + p[0] + '=' + p[1] + '$' + str(i + 1) + p[1]
            else:
                v = values[i]
                out = out + p[0] + ('' if v is None else "='" + v + "'")
            i += 1
        else:
            out = out + p
    return out


def h_text(sx, ns, lens, clens, quotes, extras):
    n, pieces = pattern(sx, ns, lens, quotes, extras)
    c = Citation(name='x', refsDecl=render(pieces, None))
    how = sx.choice('fill with', ['none', 'list', 'list ending in None', 'reference', 'range', 'tuple'])
    comps = [sx.str('c%d' % i, clens, COMP) for i in range(n)]
    values = list(comps)
    if how == 'none':
        got, values = c.fill(None), [None] * n
    elif how == 'list':
        got = c.fill(list(comps))
    elif how == 'tuple':
        got = c.fill(tuple(comps))
    elif how == 'list ending in None':
        k = sx.choice('first None', list(range(n)))
        values = comps[:k] + [None] * (n - k)
        got = c.fill(list(values))
    elif how == 'reference':
        got = c.fill(CtsReference('.'.join(comps)))
    else:
        got = c.fill(CtsReference('.'.join(comps) + '-' + '.'.join(['9'] * n)))
    want = render(pieces, values, 'fill')
    sx.observe('filled', got)
    sx.check(got == want, 'filled refsDecl', got=got, want=want)
    sx.check(c.refsDecl == render(pieces, None), 'citation unchanged by filling')


def h_last(sx, lens, clens, quotes, extras):
    n, pieces = pattern(sx, [1, 2], lens, quotes, extras)
    c = Citation(name='x', refsDecl=render(pieces, None))
    last = [p for p in pieces[-3:]]
    k = sx.choice('fill with', ['none', 'text'])
    v = None if k == 'none' else sx.str('c', clens, COMP)
    got = c.fill(v, xpath=True)
    want = render(last, [v], 'fill')
    sx.observe('filled', got)
    sx.check(got == want, 'filled xpath', got=got, want=want)


DOC = '''<TEI xmlns="http://www.tei-c.org/ns/1.0"><text><body><div n="a"><l n="a"/><l n="b"/></div>
<div n="b"><l n="a"/><lb n="x"/><l n="b"/></div></body></text></TEI>'''


def h_select(sx, lens, clens):
    """The filled expression run on a real tree with arbitrary identifiers."""
    root = xmlparser(DOC, objectify=False)
    ns = XPATH_NAMESPACES
    divs = root.xpath('//tei:div', namespaces=ns)
    ids = {}
    for i, d in enumerate(divs):
        ids[d] = sx.str('div%d' % i, lens, COMP)
        d.set('n', ids[d])
        for j, l in enumerate(d.xpath('tei:l', namespaces=ns)):
            ids[l] = sx.str('l%d.%d' % (i, j), lens, COMP)
            l.set('n', ids[l])
    c = Citation(name='line', refsDecl="/tei:TEI/tei:text/tei:body/tei:div[@n='$1']/tei:l[@n='$2']")
    how = sx.choice('fill with', ['none', 'both', 'first'])
    a, b = sx.str('a', clens, COMP), sx.str('b', clens, COMP)
    x = c.fill({'none': None, 'both': [a, b], 'first': [a, None]}[how])
    got = root.xpath(x, namespaces=ns)
    want = []
    for d in divs:
        if how != 'none' and not (ids[d] == a):
            continue
        for l in d.xpath('tei:l', namespaces=ns):
            if how == 'both' and not (ids[l] == b):
                continue
            want.append(l)
    sx.observe('count', len(got))
    sx.check(len(got) == len(want) and all(g is w for g, w in zip(got, want)), 'selected nodes are those identified',
             got=len(got), want=len(want))


def h_many(sx, levels):
    n = sx.choice('levels', levels)
    pieces = ['/tei:TEI']
    for i in range(n):
        pieces += ['/tei:div[', ('@n', "'"), ']']
    c = Citation(name='x', refsDecl=render(pieces, None))
    how = sx.choice('fill with', ['none', 'list', 'reference', 'part'])
    comps = [sx.str('c%d' % i, 1, 'a-c$0-9') if i in (0, 1, n - 1) else 'x%d' % i for i in range(n)]
    values = list(comps)
    if how == 'none':
        got, values = c.fill(None), [None] * n
    elif how == 'list':
        got = c.fill(list(comps))
    elif how == 'reference':
        got = c.fill(CtsReference('.'.join(comps)))
    else:
        k = sx.choice('first None', [0, 1, n - 1])
        values = comps[:k] + [None] * (n - k)
        got = c.fill(list(values))
    want = render(pieces, values, 'fill')
    sx.observe('filled', got)
    sx.check(got == want, 'many levels filled', got=got, want=want)


R = Registry()
R.add('many', h_many, dict(levels=[9, 10, 12]), dict(levels=list(range(3, 22))), 'many levels')
R.add('fill', h_text, dict(ns=[1, 2], lens=(1, 2), clens=(1, 1), quotes=QUOTES, extras=['none', 'before', 'after']),
      dict(ns=[1, 2, 3], lens=(1, 2), clens=(1, 2), quotes=QUOTES + SLASHED, extras=['none', 'before', 'after']),
      'patterns of 1-2 levels with constant attribute tests')
R.add('fill xpath', h_last, dict(lens=(1, 2), clens=(0, 2), quotes=QUOTES, extras=['none', 'before', 'after']),
      dict(lens=(1, 3), clens=(0, 3), quotes=QUOTES + SLASHED, extras=['none', 'before', 'after']), 'last step only')
R.add('select', h_select, dict(lens=1, clens=1), dict(lens=(1, 2), clens=(1, 2)),
      'two divisions of two lines with arbitrary identifiers')
names, get, bounds = R.names, R.get, R.bounds
ASSUMPTIONS = ["Components hold no single quote, '.', '-' or '@'. Constant attribute tests hold no place-holder."]
