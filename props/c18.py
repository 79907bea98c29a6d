"""C18 Metadata exports carry every value unchanged."""
import rdflib
from lxml import etree
from rdflib import Graph, Literal, URIRef
from rdflib.namespace import DC, DCTERMS
from MyCapytain.common.constants import Mimetypes, RDF_NAMESPACES
from MyCapytain.common.metadata import Metadata
from props._util import Registry
from props.c17 import row_of

KEYS = [DC.title, DC.creator, RDF_NAMESPACES.CTS.term('label'), DC.term('titleAlternative') if hasattr(DC, 'term') else URIRef(str(DC) + 'titleAlternative'),
        URIRef(str(DC) + 'more/title'), URIRef(str(DC)[:-1] + '#title')]
NS_OF = [str(DC), str(DC), str(RDF_NAMESPACES.CTS), str(DC), str(DC) + 'more/', str(DC)[:-1] + '#']
LANGS = [None, 'eng', 'en']
XML = '{http://www.w3.org/XML/1998/namespace}'


def rows_of(m):
    return sorted((str(p),) + row_of(o) for p, o in m.graph.predicate_objects(m.asNode()))


def sort_rows(rows):
    return sorted(rows, key=lambda r: tuple('' if x is None else x for x in r))


def put(sx, m, n, kinds, txt, lens, langs, keys, schemes=(True,)):
    rows = []
    for i in range(n):
        key = keys[sx.choice('key %d' % i, list(range(len(keys))))]
        s = sx.str('value %d' % i, sx.choice('length %d' % i, lens), txt)
        kind = sx.choice('kind %d' % i, kinds)
        if kind == 'uri':
            if sx.choice('scheme %d' % i, list(schemes)):
                s = 'u:' + s
            lang = None
            m.add(key, URIRef(s))
        else:
            lang = sx.choice('lang %d' % i, langs)
            m.add(key, s, lang)
        row = (str(key), s, lang, kind)
        if not any(r[0] == row[0] and r[2] == lang and r[3] == kind and r[1] == s for r in rows):
            rows.append(row)
    return rows


def restricted(rows, only, exclude):
    spaces = dict(zip(map(str, KEYS), NS_OF))

    def hit(r, sel):
        return any(r[0] == str(x) or spaces[r[0]] == str(x) for x in sel)
    if only is not None:
        return [r for r in rows if hit(r, only)]
    if exclude is not None:
        return [r for r in rows if not hit(r, exclude)]
    return rows


def read_json(out):
    got = []
    for k, langs in out.items():
        for l, v in langs.items():
            for x in (v if isinstance(v, list) else [v]):
                got.append((k, x, l))
    return got


SELECT = [(None, None), ([KEYS[0]], None), ([RDF_NAMESPACES.CTS], None), ([KEYS[1], RDF_NAMESPACES.CTS], None), ([], None),
          (None, [KEYS[0]]), (None, [DC]), (None, [RDF_NAMESPACES.CTS, KEYS[1]]), ([str(KEYS[0])], None), ([DC], None), (None, []),
          (None, [str(KEYS[0])]), ([URIRef(str(DC) + 't')], None), (None, [URIRef(str(DC) + 't')])]


def declared(m):
    """declarations for the prefixes the graph of the metadata uses"""
    out = []
    for prefix, ns in m.graph.namespaces():
        if str(ns) in (str(DC), str(RDF_NAMESPACES.CTS)):
            out.append('xmlns%s="%s"' % (':' + str(prefix) if prefix else '', ns))
    return ' '.join(out)


def compare(sx, m, out, rows, fmt, tag):
    if fmt == 'json':
        # letter case is the matter of the harness 'letters'
        got = [(k, x.lower(), l) for k, x, l in read_json(out)]
        want = [(r[0], r[1].lower(), r[2]) for r in rows]
    elif fmt == 'xml':
        doc = etree.fromstring('<x %s xmlns:dct="%s">%s</x>' % (declared(m), DCTERMS, out))
        got = [(e.tag.replace('{', '').replace('}', '') if '}' in e.tag else 'no namespace ' + e.tag, e.text or '', e.get(XML + 'lang')) for e in doc]
        want = [(r[0], r[1], r[2]) for r in rows]
    else:
        got, want = out, rows
    sx.observe(tag, sort_rows(got))
    sx.check(len(got) == len(want) and all(count(w, got) == count(w, want) for w in want), tag + ': every value once under its key and language',
             got=got, want=want)


def count(row, rows):
    n = 0
    for r in rows:
        if r == row:
            n += 1
    return n


def h_letters(sx, n):
    m = Metadata(URIRef('n:a'))
    s = sx.str('value', sx.choice('length', list(range(1, n + 1))), 'abA \u00e9')
    lang = sx.choice('lang', LANGS)
    m.add(KEYS[0], s, lang)
    got = m.export(Mimetypes.JSON.Std)
    sx.observe('json', got)
    have = got[str(KEYS[0])][lang]
    sx.check(have == s or have == s.title(), 'json: the value itself', got=have, want=s)
    sx.check(have == s, 'json: letter case kept', got=have, want=s)


def export(m, fmt, only, exclude):
    """what is exported: the document, or for RDF serialisations the triples handed to rdflib's serialiser"""
    mime = {'json': Mimetypes.JSON.Std, 'xml': Mimetypes.XML.CapiTainS.CTS, 'ld': Mimetypes.JSON.LD, 'rdf': Mimetypes.XML.RDF}[fmt]
    kw = {}
    if only is not None:
        kw['only'] = only
    if exclude is not None:
        kw['exclude'] = exclude
    return m.export(mime, **kw)


def graph_rows(g, node):
    out = []
    for s, p, o in g:
        t, l, k = row_of(o)
        out.append((str(p) if s == node else 'another subject', t, l, k))
    return out


def h_export(sx, n, kinds, txt, lens, fmts, langs, keys, select, schemes=(True,)):
    m = Metadata(URIRef('n:a'))
    other = Metadata(URIRef('n:b'))
    other.add(KEYS[0], 'other', 'eng')
    rows = put(sx, m, n, kinds, txt, lens, langs, keys, schemes)
    before = sort_rows(graph_rows([(m.asNode(), p, o) for p, o in m.graph.predicate_objects(m.asNode())], m.asNode()))
    caught = []
    if 'ld' in fmts:
        def serialize(self, destination=None, format='turtle', **k):
            caught.append((format, graph_rows(self, m.asNode())))
            return 'serialised'
        sx.patch(Graph, 'serialize', serialize)
    only, exclude = SELECT[sx.choice('restricted to', select)]
    for turn in ('first', 'second'):
        fmt = sx.choice('format ' + turn, fmts)
        sel = None if only is None else list(only)
        exc = None if exclude is None else list(exclude)
        out = export(m, fmt, sel, exc)
        if fmt in ('ld', 'rdf'):
            sx.check(len(caught) == 1 and out == 'serialised' and caught[0][0] == {'ld': 'json-ld', 'rdf': 'xml'}[fmt], 'rdf: one serialisation')
            out = caught.pop()[1]
        compare(sx, m, out, restricted(rows, only, exclude), fmt, fmt)
        sx.check(sel == only and exc == exclude, 'the restriction passed in is kept', got=[sel, exc])
    after = sort_rows(graph_rows([(m.asNode(), p, o) for p, o in m.graph.predicate_objects(m.asNode())], m.asNode()))
    sx.check(after == before, 'metadata unchanged', got=after)
    sx.check([str(o) for o in other.get(KEYS[0])] == ['other'], 'metadata of others unchanged')


def h_default(sx):
    m = Metadata(URIRef('n:a'))
    s = sx.str('value', 2, 'aB \u00e9')
    m.add(KEYS[0], s, sx.choice('lang', LANGS))
    sx.check(read_json(m.export()) == read_json(m.export(Mimetypes.JSON.Std)), 'the default export is JSON')


R = Registry()
ALL = list(range(len(SELECT)))
R.add('export', h_export, dict(n=2, kinds=['text', 'uri'], txt='aB', lens=[1], fmts=['json', 'xml', 'ld', 'rdf'], langs=[None, 'eng'], keys=KEYS[:1] + KEYS[2:3], select=[0, 1, 2, 5]),
      dict(n=2, kinds=['text', 'uri'], txt='a B<', lens=[0, 1], fmts=['json', 'xml', 'ld', 'rdf'], langs=LANGS, keys=KEYS[:3], select=ALL), 'pairs of values, every pair of exports')
R.add('select', h_export, dict(n=3, kinds=['text'], txt='ab', lens=[1], fmts=['json'], langs=['eng'], keys=KEYS[:3], select=ALL),
      dict(n=3, kinds=['text'], txt='ab', lens=[1], fmts=['json', 'xml'], langs=[None, 'eng'], keys=KEYS[:3], select=ALL), 'restrictions')
R.add('close', h_export, dict(n=2, kinds=['text'], txt='a', lens=[1], fmts=['json'], langs=['eng'], keys=KEYS, select=ALL),
      dict(n=3, kinds=['text'], txt='a', lens=[1], fmts=['json', 'ld'], langs=['eng'], keys=KEYS, select=ALL), 'keys and namespaces that are the start of one another')
R.add('links', h_export, dict(n=2, kinds=['text', 'uri'], txt='ab', lens=[1], fmts=['json', 'xml', 'ld', 'rdf'], langs=[None, 'eng'], keys=KEYS[:1], select=[0], schemes=(False, True)),
      dict(n=3, kinds=['text', 'uri'], txt='ab', lens=[1], fmts=['json', 'xml', 'ld', 'rdf'], langs=[None, 'eng'], keys=KEYS[:1], select=[0], schemes=(False, True)), 'links and texts that read the same')
R.add('text', h_export, dict(n=1, kinds=['text'], txt='aB <>&"\'\u00e9', lens=[0, 2, 3], fmts=['json', 'xml'], langs=LANGS, keys=KEYS[:1], select=[0]),
      dict(n=1, kinds=['text', 'uri'], txt='aB <>&"\'\u00e9', lens=[0, 2, 4], fmts=['json', 'xml', 'ld'], langs=LANGS, keys=KEYS[:3], select=[0]), 'arbitrary texts')
R.add('same', h_export, dict(n=3, kinds=['text'], txt='abB', lens=[1], fmts=['json', 'xml'], langs=[None, 'eng'], keys=KEYS[:1], select=[0]),
      dict(n=4, kinds=['text'], txt='abcB', lens=[1], fmts=['json', 'xml'], langs=[None, 'eng'], keys=KEYS[:1], select=[0]), 'several values of one key')
R.add('letters', h_letters, dict(n=3), dict(n=4), 'letter case in JSON')
R.add('default', h_default, {}, {}, 'default export')
names, get, bounds = R.names, R.get, R.bounds
