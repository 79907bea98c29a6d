"""C09 Citations survive export and re-ingestion."""
from pyld import jsonld
from MyCapytain.common.constants import Mimetypes, XPATH_NAMESPACES
from MyCapytain.common.reference import Citation, BaseCitationSet, DtsCitation, DtsCitationSet
from MyCapytain.common.utils.xml import xmlparser
from MyCapytain.resources.collections.cts import XmlCtsCitation
from props._util import Registry
from props.c08 import forests

NAME = [(0x20, 0x7E), (0xA1, 0xFF), (0x3B1, 0x3C9)]
VALUE = [(0x20, 0x21), (0x23, 0x23), (0x25, 0x26), (0x28, 0x2E), (0x30, 0x3E), (0x40, 0x5B), (0x5D, 0x7E), (0xE9, 0xE9)]
TI = 'http://chs.harvard.edu/xmlns/cts'


def make(sx, ns, lens, vlens, quotes, cls, typed=False, tails=('',)):
    """chain of n citations; the k-th has k place-holders"""
    n = sx.choice('levels', ns)
    q = sx.choice('quote', quotes)
    name_of = [sx.str('name%d' % i, lens, NAME) for i in range(n)]
    decls = []
    d = '/tei:TEI'
    for i in range(n):
        d = d + sx.choice('sep%d' % i, ['/', '//']) + 'tei:div'
        if i == 0 or (typed and sx.bool('typed%d' % i)):
            d = d + '[@type=' + q + sx.str('type%d' % i, vlens, VALUE) + q + ']'
        d = d + '[@n=' + q + '$%d' % (i + 1) + q + ']'
        decls.append(d + (sx.choice('tail', list(tails)) if i == n - 1 else ''))
    c = None
    for i in reversed(range(n)):
        c = cls(name=name_of[i], refsDecl=decls[i], child=c)
    return c, name_of, decls


def compare(sx, c, names, decls, tag):
    sx.check(c is not None, tag + ': read back')
    got = list(c)
    sx.check(len(got) == len(names), tag + ': number of levels', got=len(got), want=len(names))
    sx.check([x.name for x in got] == names, tag + ': names', got=[x.name for x in got], want=names)
    for x, d in zip(got, decls):
        sx.check(x.refsDecl == d, tag + ': pattern', got=x.refsDecl, want=d)
        fresh = Citation(name='x', refsDecl=d)
        sx.check(x.scope == fresh.scope, tag + ': scope', got=x.scope, want=fresh.scope)
        sx.check(x.xpath == fresh.xpath, tag + ': xpath', got=x.xpath, want=fresh.xpath)


def h_cts(sx, ns, lens, vlens, quotes, typed=False, tails=('',)):
    c, names, decls = make(sx, ns, lens, vlens, quotes, sx.choice('class', [Citation, XmlCtsCitation]), typed, tails)
    out = c.export(Mimetypes.XML.CTS)
    sx.observe('export', out)
    el = xmlparser('<online xmlns="%s">%s</online>' % (TI, out), objectify=False)
    # the format quotes its attributes with double quotes and turns those of the expressions into single ones
    decls = [d.replace('"', "'") for d in decls]
    compare(sx, XmlCtsCitation.ingest(el), names, decls, 'cts')
    found = el.xpath('.//ti:citation', namespaces=XPATH_NAMESPACES)
    sx.check(len(found) == len(names), 'cts: one element per level')
    for k, e in enumerate(found):
        sx.check(e.get('label') == names[k], 'cts: label attribute')
        sx.check(len(e.xpath('ancestor::ti:citation', namespaces=XPATH_NAMESPACES)) == k, 'cts: nesting')


def h_single_cts(sx, lens, quotes):
    """a one-step pattern has an empty scope"""
    q = sx.choice('quote', quotes)
    d = "//tei:l[@n=" + q + "$1" + q + "]"
    nm = sx.str('name', lens, NAME)
    out = Citation(name=nm, refsDecl=d).export(Mimetypes.XML.CTS)
    el = xmlparser('<online xmlns="%s">%s</online>' % (TI, out), objectify=False)
    compare(sx, XmlCtsCitation.ingest(el), [nm], [d.replace('"', "'")], 'cts one step')


def h_tei(sx, ns, lens, vlens, quotes, typed=False, tails=('',)):
    c, names, decls = make(sx, ns, lens, vlens, quotes, Citation, typed, tails)
    text = ''.join(x.export(Mimetypes.XML.TEI) for x in reversed(list(c)))
    sx.observe('export', text)
    el = xmlparser('<tei:refsDecl xmlns:tei="http://www.tei-c.org/ns/1.0" n="CTS">%s</tei:refsDecl>' % text,
                   objectify=False)
    compare(sx, Citation.ingest([el]), names, decls, 'tei')
    for i, e in enumerate(el.xpath('.//tei:cRefPattern', namespaces=XPATH_NAMESPACES)):
        sx.check(e.get('matchPattern').count('w+') == len(names) - i, 'tei: match pattern of the level')
        sx.check(e.xpath('string(tei:p)', namespaces=XPATH_NAMESPACES).endswith('extracts ' + names[len(names) - 1 - i]),
                 'tei: description names the level')


def h_dts(sx, sizes, lens, froms):
    n = sx.choice('citations', sizes)
    shape = sx.choice('shape', forests(n))
    frm = sx.choice('from', froms)
    names = []

    def build(sh):
        nm = sx.str('name%d' % len(names), lens, NAME)
        names.append(nm)
        return DtsCitation(name=nm, children=[build(k) for k in sh] or None)

    def outline(cs):
        return [(c.name, outline(c.children)) for c in cs]

    tops = [build(s) for s in shape]
    s = DtsCitationSet(children=tops)
    want = outline(s.children)
    out = s.export(Mimetypes.JSON.DTS.Std, context=True)
    exp = jsonld.expand(out)
    data = exp[0].get('https://w3id.org/dts/api#citeStructure', []) if exp else []
    back = DtsCitationSet.ingest(data)
    sx.observe('names', [c.name for c in back])
    sx.check(outline(back.children) == want, 'dts: same tree of names', got=outline(back.children), want=want)
    sx.check(back.depth == s.depth and len(back) == len(s), 'dts: same size and depth')
    sx.check(outline(s.children) == want, 'dts: unchanged by export')
    for t in tops:
        e = jsonld.expand(t.export(Mimetypes.JSON.DTS.Std, context=True))[0]
        one = DtsCitation.ingest(e)
        sx.check(outline([one]) == outline([t]), 'dts: one citation alone')


def h_cts_json(sx, ns, lens):
    c, names, decls = make(sx, ns, lens, 1, ["'"], Citation)
    e = jsonld.expand(c.export(Mimetypes.JSON.DTS.Std, context=True))[0]
    one = DtsCitation.ingest(e)
    sx.check([x.name for x in one] == names, 'a CTS chain as DTS JSON')


R = Registry()
Q = ["'", '"']
R.add('cts', h_cts, dict(ns=[1, 2], lens=(0, 1), vlens=1, quotes=Q), dict(ns=[1, 2], lens=(0, 2), vlens=1, quotes=Q, typed=True),
      'chains of 1-2 levels')
R.add('cts deep', h_cts, None, dict(ns=[3, 4], lens=1, vlens=1, quotes=["'"]), 'chains of 3-4 levels', tiers=('thorough',))
R.add('cts one step', h_single_cts, dict(lens=(0, 1), quotes=Q), dict(lens=(0, 2), quotes=Q), 'one level, one step')
R.add('tei', h_tei, dict(ns=[1, 2], lens=(0, 1), vlens=1, quotes=Q), dict(ns=[1, 2], lens=(0, 2), vlens=1, quotes=Q, typed=True),
      'chains of 1-2 levels')
T = ('/node()', '[1]', '/tei:p[not(@rend)]', '/text()')
R.add('cts tails', h_cts, dict(ns=[1, 2], lens=1, vlens=1, quotes=["'"], tails=T),
      dict(ns=[1, 2, 3], lens=1, vlens=1, quotes=["'"], tails=T), 'patterns going on after the last place-holder')
R.add('tei tails', h_tei, dict(ns=[1, 2], lens=1, vlens=1, quotes=["'"], tails=T),
      dict(ns=[1, 2, 3], lens=1, vlens=1, quotes=["'"], tails=T), 'patterns going on after the last place-holder')
R.add('dts', h_dts, dict(sizes=[0, 1, 2, 3], lens=1, froms=['set']), dict(sizes=[0, 1, 2, 3, 4], lens=(1, 2), froms=['set']),
      'every ordered forest of up to 3 citations')
R.add('cts json', h_cts_json, dict(ns=[1, 2], lens=1), dict(ns=[1, 2, 3], lens=(1, 2)), 'chains of 1-2 levels')
names, get, bounds = R.names, R.get, R.bounds
ASSUMPTIONS = ['Names and constant values hold printable characters (no control characters).']
