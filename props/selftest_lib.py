"""Not a property: lxml and rdflib idioms on symbolic strings, compared with the real libraries (engine self-test)."""
import io
import copy
from lxml import etree, objectify
from rdflib import Graph, URIRef, Literal, BNode, Namespace, RDF
from rdflib.collection import Collection as RC
from props._util import Registry

I = {}
N = {'t': 'urn:t'}
T = '{urn:t}'


def idiom(f):
    I[f.__name__] = f
    return f


def tree(x, y, obj=False):
    if obj:
        p = objectify.parse(io.StringIO('<r xmlns="urn:t"><l n="q"/><l/><h/></r>'))
        r = p.getroot()
    else:
        r = etree.fromstring('<r xmlns="urn:t"><l n="q"/><l/><h/></r>')
    a, b, h = r.iterchildren()
    a.set('n', x)
    b.set('n', y)
    a.set('k', 'v')
    if not obj:
        a.text = y
        a.tail = x
        h.text = 'H'
    return r, a, b, h


def tag(els):
    return [e.get('n') for e in els]


@idiom
def finds(x, y):
    r, a, b, h = tree(x, y)
    f = r.find("t:l[@n='a']", N)
    return f is a, f is None, tag(r.findall("t:l[@n='b']", N)), tag(r.iterfind('t:l', N)), r.findtext('t:l', namespaces=N), tag(r.findall(T + 'l')), tag(r.findall('.//' + T + 'l[@n]'))


@idiom
def xps(x, y):
    r, a, b, h = tree(x, y)
    q = lambda p, **k: r.xpath(p, namespaces=N, **k)
    return (tag(q("./t:l[@n='a']")), tag(q('//t:l[@n=$v]', v=x)), q('count(./t:l)'), q('./t:l/@n'), tag(q('./t:l[2]')), tag(q('./t:l[last()]')), tag(q("./t:l[@n='a' or @n='b']")),
            tag(q("./t:l[not(@n='a')]")), q('string(./t:l[1])'), tag(q('./*[local-name()="l"]')), q("boolean(./t:l[@n='a'])"), q('./t:l/text()'), tag(q('.//t:l[@n and @k]')), tag(q('./t:l|./t:h')))


@idiom
def xps2(x, y):
    r, a, b, h = tree(x, y)
    q = lambda p, **k: a.xpath(p, namespaces=N, **k)
    return (tag(q('following-sibling::t:l')), q('..')[0] is r, q('ancestor::*')[0] is r, tag(q('../t:l[@n="b"]')), q('string(@n)'), q('count(preceding-sibling::*)'), tag(b.xpath('preceding-sibling::*')), q('@n = "a"'),
            q('name()'), q('local-name()'), tag(q('self::t:l[@n="a"]')), q('.//text()'), q('concat(@n, "z")'))


@idiom
def xps3(x, y):
    r, a, b, h = tree(x, y)
    q = lambda p, **k: r.xpath(p, namespaces=N, **k)
    return (tag(q('./t:l[starts-with(@n, "a")]')), tag(q('./t:l[contains(@n, "b")]')), q('string-length(./t:l/@n)'), tag(q('./t:l[string-length(@n) = 1]')), tag(q('./t:l[position() > 1]')), tag(q('./t:l[@n="a"][1]')), tag(q('(./t:l)[1]')), tag(q('./t:l[normalize-space(@n) = "a"]')),
            tag(q('./t:l[@n != "a"]')), tag(q('./t:l[../t:h]')), tag(q('descendant::t:l[@n="a"]')), tag(q('./t:l[count(*) = 0]')), tag(q('./t:l[@k="v" and (@n="a" or @n="b")]')), tag(q('./t:l[text()="a"]')), tag(q('./t:l[.="a"]')))


@idiom
def xpclass(x, y):
    r, a, b, h = tree(x, y)
    f = etree.XPath("./t:l[@n='a']", namespaces=N)
    g = etree.XPath('./t:l[@n=$v]', namespaces=N)
    return tag(f(r)), tag(g(r, v=y)), tag(etree.ETXPath('./{urn:t}l[@n="b"]')(r))


@idiom
def attribs(x, y):
    r, a, b, h = tree(x, y)
    d = dict(a.attrib)
    a.attrib['m'] = y
    a.attrib.update({'z': x})
    p = b.attrib.pop('n')
    return d, a.get('m'), 'n' in a.attrib, list(a.attrib.items()), a.keys(), a.values(), p, b.get('n'), b.get('n', 'no'), a.items(), a.attrib.get('n'), len(a.attrib), a.attrib.has_key('n')


@idiom
def strs(x, y):
    r, a, b, h = tree(x, y)
    s = etree.tostring(a, encoding=str, with_tail=False)
    t = etree.tostring(r, encoding='unicode', method='text')
    u = etree.tostring(h).decode()
    v = etree.fromstring(etree.tostring(r))
    return s, t, u, ''.join(r.itertext()), [c.get('n') for c in v], etree.tostring(r, encoding='unicode', xml_declaration=False, pretty_print=False), str(etree.tostring(a, encoding='utf-8'), 'utf-8'), ''.join(a.itertext('*')), [e.text for e in r.iter(T + 'l', T + 'h')]


@idiom
def moves(x, y):
    r, a, b, h = tree(x, y)
    c = copy.deepcopy(a)
    r.append(c)
    n = r.index(c), len(r), tag(r)
    h.addprevious(a)
    r.remove(b)
    e = etree.SubElement(r, 'new', {'n': x}, m=y)
    f = etree.Element('z', attrib={'n': y}, nsmap={'p': 'urn:p'})
    r.insert(0, f)
    r[0].tail = x
    return n, tag(r), c.get('n') == x, e.get('m'), r[-1] is e, f.tail, [i.tag for i in r.iter()], tag(r[1:]), f.getnext() is r[1], list(r.iterchildren(reversed=True))[0] is e


@idiom
def walks(x, y):
    r, a, b, h = tree(x, y)
    return (tag(r.iter(T + 'l')), [e.tag for e in h.iterancestors()], tag(h.itersiblings(preceding=True)), a.getnext() is b, b.getprevious() is a, tag(r.iterchildren(T + 'l')), tag(r.iterdescendants()), h.getparent() is r,
            r.getroottree().getpath(b), r.getroottree().getroot() is r, etree.QName(a).localname, etree.QName(a.tag).namespace, a.nsmap, a.prefix, tag(r.findall('*')), r.getroottree().getelementpath(b), tag(reversed(r)), [ev for ev, _ in etree.iterwalk(r, events=('start',))])


@idiom
def objs(x, y):
    r, a, b, h = tree(x, y, True)
    return r.l.get('n'), [e.get('n') for e in r.l], tag(r.findall('t:l[@n="a"]', N)), tag(r.xpath('./t:l[@n="b"]', namespaces=N)), tag(r.iterchildren('{urn:t}l')), r.countchildren(), tag(copy.deepcopy(r).l), tag(r.getchildren())


EX = Namespace('urn:ex:')


def graph(x, y):
    g = Graph()
    s, t = URIRef('urn:s'), URIRef('urn:t:' + y)
    g.add((s, EX.p, Literal(x)))
    g.add((s, EX.p, Literal(y, lang='la')))
    g.add((s, EX.q, t))
    g.add((t, EX.p, Literal('a')))
    return g, s, t


@idiom
def rdf1(x, y):
    g, s, t = graph(x, y)
    return (str(g.value(t, EX.p)), len(list(g.objects(s, EX.p))), (s, EX.p, Literal(x)) in g, (s, EX.p, Literal('a')) in g, g.value(s, EX.q) == t, g.value(predicate=EX.q, object=URIRef('urn:t:b')) == s, len(g), (s, EX.q, None) in g,
            sorted(str(o) for o in g.objects(s, EX.p)), sorted(str(o) for o in g[s:EX.p]), list(g[s:EX.q])[0] == t, len(list(g.triples((None, EX.p, Literal('a'))))), len(list(g.subjects(EX.p, Literal(x)))))


@idiom
def rdf2(x, y):
    g, s, t = graph(x, y)
    g.set((s, EX.p, Literal(y)))
    a = len(g), str(g.value(s, EX.p))
    g.remove((s, EX.q, URIRef('urn:t:a')))
    b = len(g)
    g.remove((None, EX.p, None))
    return a, b, len(g), sorted(str(p) for p in g.predicates(s)), [str(o) for _, o in g.predicate_objects(s)], list(g.subject_objects(EX.q)) == [(s, t)], len(set(g.all_nodes()))


@idiom
def rdf3(x, y):
    l, m = Literal(x), Literal(y, lang='la')
    return (l == m, l == Literal(y), l.value == x, str(l), l.toPython() == x, m.language, l.n3() if x == 'a' else '', URIRef(x) == URIRef(y), URIRef('urn:' + x) + y == URIRef('urn:' + y),  len({l, Literal(y)}),
            URIRef(x).n3() if x == 'a' else '', {URIRef(x): 1}.get(URIRef(y)), l in [Literal(y)], URIRef('urn:' + x).toPython(), isinstance(l, str))


@idiom
def rdf4(x, y):
    g, s, t = graph(x, y)
    h = Graph()
    h += g
    h.add((t, EX.p, Literal(x)))
    k = h - g
    return len(h), len(k), len(g & h), set(g) <= set(h), sorted(map(str, g.transitive_objects(s, EX.q))), list(g.subjects(EX.q, t)) == [s], sorted(str(o) for o in g.objects(s)), len(list(g.query('SELECT ?o WHERE { <urn:s> <urn:ex:q> ?o }'))), len([1 for a, b, c in g if c == Literal('a')])


def outcome(f, x, y):
    try:
        return ('ok', f(x, y))
    except Exception as e:
        return (type(e).__name__, str(e) if type(e) is not KeyError else '')


VALUES = ['', 'a', 'b', 'aa', 'ab', 'ba', 'bb']


def h(sx, which):
    f = I[which]
    x = sx.str('x', (0, 2), 'ab')
    y = sx.str('y', (0, 1), 'ab')
    r = outcome(f, x, y)
    for v in VALUES:
        if x == v:
            for w in VALUES[:3]:
                if y == w:
                    e = outcome(f, v, w)
                    if r[0] == 'ok' and e[0] == 'ok' and type(e[1]) is tuple and len(e[1]) == len(r[1]):
                        for i in range(len(e[1])):
                            sx.check(r[1][i] == e[1][i], which + str(i))
                    else:
                        sx.check(r == e, which, r=repr(r)[:200], e=repr(e)[:200])


R = Registry()
for n in I:
    R.add(n, h, dict(which=n), dict(which=n), n)
names, get, bounds = R.names, R.get, R.bounds
ASSUMPTIONS = []
