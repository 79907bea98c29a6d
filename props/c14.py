"""C14 Exports of a text preserve its content."""
from lxml import etree
from MyCapytain.common.constants import Mimetypes
from MyCapytain.common.reference import CtsReference
from props._util import Registry
from props.c11 import prepare
from props.texts import build, kind, snap

EXCLUDES = [None, ['tei:hi'], ['tei:hi', 'tei:head'], ['tei:l'], ['tei:seg']]


def strings(el, names, out):
    """text nodes in document order, but not those inside an element of these names"""
    if kind(el) in names:
        return
    if kind(el) != '#' and el.text:
        out.append(el.text)
    for c in el.iterchildren():
        strings(c, names, out)
        if c.tail:
            out.append(c.tail)


def collapse(s):
    """runs of spaces made one, character by character"""
    out = ''
    prev = ''
    for ch in s:
        if ch == ' ' and prev == ' ':
            continue
        out += ch
        prev = ch
    return out


def plain(el, exclude, join=' '):
    out = []
    strings(el, [x.split(':')[1] for x in exclude or []], out)
    return collapse(join.join(out))


def h_plain(sx, cases, modes):
    text, m = build(sx, **dict(sx.choice('case', cases)))
    nodes = m.all()
    mode = sx.choice('of', modes)
    if mode == 'text':
        p = text
    else:
        n = nodes[sx.choice('passage', [0, len(nodes) - 1])]
        p = text.getTextualNode(CtsReference(n.ref), simple=mode == 'simple')
    ex = sx.choice('excluded', EXCLUDES)
    join = sx.choice('joined by', [' ', ''])
    if join != ' ':
        p.plaintext_string_join = join
    before = snap(p.xml)
    got = p.export(Mimetypes.PLAINTEXT, exclude=ex)
    sx.observe('text', got)
    want = plain(p.xml, ex, join)
    sx.check(got == want, 'plain text', got=got, want=want)
    if ex is None:
        sx.check(p.export() == want, 'default export is the plain text')
        sx.check(p.text == want, 'text property')
    sx.check(snap(p.xml) == before, 'the passage is unchanged')
    sx.check(p.export(Mimetypes.PLAINTEXT, exclude=ex) == want, 'exported again')


def h_spaces(sx, length):
    """every text: runs of spaces are collapsed and nothing else is changed"""
    from MyCapytain.common.utils import normalize
    s = sx.str('text', sx.choice('length', list(range(length + 1))), ' a\n\t\u00a0b')
    got = normalize(s)
    sx.check(got == collapse(s), 'runs of spaces collapsed', got=got, want=collapse(s))
    sx.observe('got', got)


def h_again(sx, steps, excludes):
    """what one export leaves out has no bearing on the next, of the same passage or of another"""
    set_a, ma = build(sx, 2, noise=True, ids_fixed=True, text='numbers', inner=True)
    set_b, mb = build(sx, 1, noise=True, ids_fixed=True, text='numbers', inner=True)
    ps = [set_a, set_a.getTextualNode(CtsReference(ma.top[0].ref)), set_a.getTextualNode(CtsReference(ma.top[0].ref), simple=True), set_b]
    joins = [' '] * len(ps)
    for i in range(steps):
        k = sx.choice('object %d' % i, list(range(len(ps))))
        p = ps[k]
        ex = sx.choice('excluded %d' % i, excludes)
        out = sx.choice('export %d' % i, [Mimetypes.PLAINTEXT, Mimetypes.PYTHON.NestedDict])
        if sx.bool('joined otherwise %d' % i):
            p.plaintext_string_join = joins[k] = '|'
        got = p.export(out, exclude=ex)
        if out == Mimetypes.PLAINTEXT:
            want = plain(p.xml, ex, joins[k])
            sx.check(got == want, 'again: plain text', got=got, want=want)
        else:
            leaves = {0: ma.leaves(), 1: [ma.top[0]], 2: [ma.top[0]], 3: mb.leaves()}[k]
            want = [(x.path, plain(x.el, ex)) for x in leaves]
            sx.check(flat(got) == want, 'again: nested', got=flat(got), want=want)
    p = ps[sx.choice('last', list(range(len(ps))))]
    want = plain(p.xml, None, joins[ps.index(p)])
    sx.check(p.text == want and p.export() == want, 'again: without exclusion', got=p.text, want=want)


def flat(d):
    out = []
    for k, v in d.items():
        if hasattr(v, 'items'):
            out += [([k] + a, b) for a, b in flat(v)]
        else:
            out.append(([k], v))
    return out


def h_dict(sx, shapes, opts, ranges):
    text, m = build(sx, sx.choice('shape', shapes), **dict(sx.choice('markup', opts)))
    prepare(m)
    nodes = m.all()
    mode = sx.choice('of', ['text', 'passage', 'simple'] + (['range'] if ranges else []))
    if mode == 'text':
        p, leaves = text, m.leaves()
    elif mode == 'range':
        lv = m.level(sx.choice('level', list(range(1, m.depth + 1))))
        a = sx.choice('start', list(range(len(lv))))
        b = sx.choice('end', list(range(a, len(lv))))
        p = text.getTextualNode(CtsReference(lv[a].ref + '-' + lv[b].ref))
        leaves = m.span(lv[a], lv[b])
    else:
        n = nodes[sx.choice('passage', list(range(len(nodes))))]
        p = text.getTextualNode(CtsReference(n.ref), simple=mode == 'simple')
        leaves = m.leaves(n)
    ex = sx.choice('excluded', [None, ['tei:hi']])
    got = flat(p.export(Mimetypes.PYTHON.NestedDict, exclude=ex))
    keys = [k for k, _ in got]
    sx.check(keys == [x.path for x in leaves], 'nested: one entry per passage in order', got=keys, want=[x.path for x in leaves])
    for (k, v), x in zip(got, leaves):
        want = plain(x.el, ex)
        sx.check(v == want, 'nested: the plain text of the passage', got=v, want=want)
    sx.observe('nested', got)


def h_xml(sx, cases):
    text, m = build(sx, **dict(sx.choice('case', cases)))
    nodes = m.all()
    mode = sx.choice('of', ['text', 'passage', 'simple'])
    if mode == 'text':
        p = text
    else:
        n = nodes[sx.choice('passage', [0, len(nodes) - 1])]
        p = text.getTextualNode(CtsReference(n.ref), simple=mode == 'simple')
    how = sx.choice('export', [Mimetypes.XML.Std, Mimetypes.XML.TEI, Mimetypes.PYTHON.ETREE, 'str'])
    got = str(p) if how == 'str' else p.export(how)
    if how == Mimetypes.PYTHON.ETREE:
        sx.check(snap(got) == snap(p.xml), 'etree: the same tree')
        return
    back = etree.fromstring(got)
    sx.check(snap(back) == snap(p.xml), 'xml: the same tree', got=snap(back), want=snap(p.xml))
    sx.check(snap(etree.fromstring(p.tostring())) == snap(p.xml), 'tostring: the same tree')


RICH = {'shape': [1], 'inner': True, 'noise': True, 'ids_fixed': True, 'txt': 'a<&"'}
TWO = dict(RICH, shape=[1, 1], txt='ab\u03b1')
SPACES = {'shape': 1, 'inner': True, 'noise': True, 'ids_fixed': True, 'txt': ' a', 'txtlen': 2, 'pre': 'x'}
TAILS = {'shape': [1], 'noise': True, 'ids_fixed': True, 'txt': ' a\n', 'txtlen': 1, 'pre': 'x ', 'tail': True}
OBJ = {'shape': [1], 'objectify': False, 'inner': True, 'ids_fixed': True, 'txt': ' a\n'}
NESTED = {'shape': 1, 'inner': 'deep', 'noise': True, 'ids_fixed': True, 'txt': 'a ', 'pre': 'x'}
CASES = [RICH, TWO, SPACES, TAILS, OBJ, NESTED]
MORE = CASES + [dict(SPACES, shape=[[1]], tail=True, txtlen=1), dict(OBJ, shape=2), dict(SPACES, shape=[1, 1], txtlen=1), dict(TWO, shape=[[2, 1], [1]])]
IDS = {'inner': True, 'text': 'word'}
R = Registry()
R.add('plain', h_plain, dict(cases=CASES, modes=['text', 'passage', 'simple']),
      dict(cases=MORE, modes=['text', 'passage', 'simple']), 'plain text of any content')
R.add('spaces', h_spaces, dict(length=5), dict(length=8), 'texts of up to 5 characters')
R.add('dict', h_dict, dict(shapes=[2, [1, 2], [[1, 1], [1]]], opts=[IDS], ranges=True),
      dict(shapes=[1, 3, [1, 2], [2, 1, 1], [[1, 1], [1]], [[2], [1, 1]], [[[1, 1], [1]], [[1]]]], opts=[IDS, {'text': 'numbers', 'noise': True}], ranges=True), 'nested dictionaries')
R.add('again', h_again, dict(steps=2, excludes=[None, ['tei:hi'], ['tei:head']]), dict(steps=3, excludes=[None, ['tei:hi'], ['tei:hi', 'tei:head'], ['tei:l']]), 'exports one after the other')
R.add('xml', h_xml, dict(cases=[RICH, TAILS, OBJ, NESTED]), dict(cases=MORE), 'XML exports')
names, get, bounds = R.names, R.get, R.bounds
