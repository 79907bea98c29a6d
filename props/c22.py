"""C22 Export dispatches to the declaring class or refuses."""
import inspect
from lxml import etree
from rdflib import URIRef
from MyCapytain.common.base import Exportable
from MyCapytain.common.constants import Mimetypes, bind_graph, set_graph
from MyCapytain.common.metadata import Metadata
from MyCapytain.common.reference import BaseCitationSet, Citation, CtsReference, DtsCitation, DtsCitationSet
from MyCapytain.resources.collections.cts import (
    XmlCtsEditionMetadata, XmlCtsCommentaryMetadata, XmlCtsTextgroupMetadata, XmlCtsTextInventoryMetadata, XmlCtsTranslationMetadata, XmlCtsWorkMetadata, XmlCtsCitation)
from MyCapytain.resources.collections.dts import DtsCollection
from MyCapytain.resources.prototypes.cts.inventory import (
    CtsTextInventoryCollection, CtsTextInventoryMetadata, CtsTextgroupMetadata, CtsWorkMetadata, CtsEditionMetadata, CtsTextMetadata)
from MyCapytain.resources.prototypes.metadata import Collection, ResourceCollection
from MyCapytain.resources.prototypes.text import TextualElement, TextualNode
from props._util import Registry, raises
from props.texts import build

M = Mimetypes
ALL = [M.JSON.Std, M.JSON.CTS, M.JSON.LD, M.JSON.DTS.Std, M.JSON.DTS.NoParents, M.XML.Std, M.XML.RDF, M.XML.RDFa, M.XML.CTS, M.XML.TEI,
       M.XML.CapiTainS.CTS, M.PYTHON.NestedDict, M.PYTHON.ETREE, M.PYTHON.MyCapytain.TextualElement, M.PLAINTEXT]


def h_user(sx, levels, declare, lens, txt, mixin=(False,)):
    """hierarchies of user-defined classes"""
    n = sx.choice('levels', levels)
    mimes = {}
    ran = []

    def exporter(name):
        def __export__(self, output=None, **kwargs):
            ran.append((name, output, kwargs))
            return 'made by ' + name
        return __export__

    def new(name, bases):
        body = {}
        k = sx.choice('declared by ' + name, declare)
        if k is not None:
            body['EXPORT_TO'] = [sx.str('mimetype %s%d' % (name, i), 1, txt) for i in range(k)]
            mimes[name] = body['EXPORT_TO']
        if sx.bool('exporter of ' + name):
            body['__export__'] = exporter(name)
        d = sx.choice('default of ' + name, [None, 'x', 'inherited'])
        if d != 'inherited':
            body['DEFAULT_EXPORT'] = d
        return type(name, bases, body)

    chain = []
    cls = Exportable
    for i in range(n):
        bases = (cls,)
        if i == n - 1 and sx.choice('mixin', list(mixin)):
            chain.append(new('Mixin', (Exportable,)))
            bases = (cls, chain[-1])
        cls = new('L%d' % i, bases)
        chain.append(cls)
    obj = cls()
    asked = None
    if sx.bool('mimetype given'):
        asked = sx.str('asked', sx.choice('length', lens), txt)
    # what must happen
    m = asked
    mro = cls.__mro__
    if asked is None:
        for c in mro:
            if 'DEFAULT_EXPORT' in vars(c):
                m = vars(c)['DEFAULT_EXPORT']
                break

    def declares(c):
        """a class which lists no mimetype of its own has the list of its base"""
        for b in c.__mro__:
            if 'EXPORT_TO' in vars(b):
                return vars(b)['EXPORT_TO']
        return []

    def runs(c):
        for b in c.__mro__:
            if '__export__' in vars(b):
                return b.__name__
    winner = None
    if m is not None:
        for c in mro:
            if c is not object and any(x == m for x in declares(c)):
                winner = runs(c)
                break
    caps = obj.export_capacities
    declared = [x for c in mro if 'EXPORT_TO' in vars(c) for x in vars(c)['EXPORT_TO']]
    for x in declared:
        sx.check(any(x == y for y in caps), 'every declared mimetype is listed', got=caps, want=declared)
    for x in caps:
        sx.check(any(x == y for y in declared), 'only declared mimetypes are listed', got=caps, want=declared)
    kw = {'option': 1} if sx.bool('with an option') else {}
    go = (lambda: obj.export(asked, **kw)) if asked is not None else (lambda: obj.export(**kw))
    if winner is None:
        sx.check(raises(NotImplementedError, go) is not None, 'an undeclared mimetype is refused')
        sx.check(ran == [], 'nothing runs for an undeclared mimetype')
    else:
        out = go()
        if winner == 'Exportable':
            sx.check(out is None and ran == [], 'no exporter at all')
        else:
            sx.check(out == 'made by ' + winner, 'the exporter of the most derived declaring class', got=out, want=winner)
            sx.check(len(ran) == 1 and ran[0][1] == m and ran[0][2] == kw, 'given the mimetype and the options', got=ran)
    sx.observe('result', [ran, caps])


def objects(sx):
    set_graph(bind_graph())
    inv = XmlCtsTextInventoryMetadata('inv')
    tic = CtsTextInventoryCollection('tic')
    plain = CtsTextInventoryMetadata('plain')
    plain.parent = tic
    tg = XmlCtsTextgroupMetadata('urn:cts:n:g', parent=inv)
    tg.set_cts_property('groupname', 'g', 'eng')
    wk = XmlCtsWorkMetadata('urn:cts:n:g.w', parent=tg)
    wk.lang = 'lat'
    wk.set_cts_property('title', 'w', 'eng')
    texts = [XmlCtsEditionMetadata('urn:cts:n:g.w.e', parent=wk), XmlCtsTranslationMetadata('urn:cts:n:g.w.t', parent=wk, lang='eng'),
             XmlCtsCommentaryMetadata('urn:cts:n:g.w.c', parent=wk, lang='eng')]
    for t in texts:
        t.set_cts_property('label', 'l', 'eng')
        t.citation = Citation(name='book', refsDecl="/a[@n='$1']")
    ptg = CtsTextgroupMetadata('urn:cts:n:h', parent=plain)
    pwk = CtsWorkMetadata('urn:cts:n:h.w', parent=ptg)
    ped = CtsEditionMetadata('urn:cts:n:h.w.e', parent=pwk)
    dts = DtsCollection.parse({'@context': {'@vocab': 'https://www.w3.org/ns/hydra/core#'}, '@id': 'urn:d', '@type': 'Collection', 'title': 'd', 'totalItems': 0})
    coll = Collection('urn:coll')
    coll.set_label('c', 'eng')
    res = ResourceCollection('urn:res')
    res.parent = coll
    text, m = build(sx, shape=[1, 1], text='same')
    ref = m.all()[-1].ref
    passage = text.getTextualNode(CtsReference(ref))
    simple = text.getTextualNode(CtsReference(ref), simple=True)
    meta = Metadata(URIRef('urn:m'))
    cite = Citation(name='book', refsDecl="/a[@n='$1']")
    return [('Metadata', meta, M.JSON.Std), ('Collection', coll, None), ('ResourceCollection', res, None), ('DtsCollection', dts, None),
            ('CtsTextInventoryCollection', tic, M.PYTHON.ETREE), ('CtsTextInventoryMetadata', plain, M.PYTHON.ETREE), ('CtsTextgroupMetadata', ptg, M.PYTHON.ETREE),
            ('CtsWorkMetadata', pwk, M.PYTHON.ETREE), ('CtsEditionMetadata', ped, M.PYTHON.ETREE), ('XmlCtsTextInventoryMetadata', inv, M.PYTHON.ETREE),
            ('XmlCtsTextgroupMetadata', tg, M.PYTHON.ETREE), ('XmlCtsWorkMetadata', wk, M.PYTHON.ETREE), ('XmlCtsEditionMetadata', texts[0], M.PYTHON.ETREE),
            ('XmlCtsTranslationMetadata', texts[1], M.PYTHON.ETREE), ('XmlCtsCommentaryMetadata', texts[2], M.PYTHON.ETREE),
            ('Citation', cite, M.XML.CTS), ('BaseCitationSet', BaseCitationSet([cite]), None),
            ('DtsCitationSet', DtsCitationSet([DtsCitation(name='x')]), None), ('DtsCitation', DtsCitation(name='x'), None),
            ('CapitainsCtsText', text, M.PLAINTEXT), ('CapitainsCtsPassage', passage, M.PLAINTEXT), ('simple passage', simple, M.PLAINTEXT),
            ('TextualElement', TextualElement('x'), None), ('TextualNode', TextualNode('x'), None)]


COLL = [M.JSON.LD, M.JSON.DTS.Std, M.XML.RDF]
CTSC = [M.PYTHON.ETREE, M.XML.CTS, M.XML.CapiTainS.CTS] + COLL
TEI = [M.PYTHON.ETREE, M.XML.Std, M.PYTHON.NestedDict, M.PLAINTEXT, M.XML.TEI]


def promised(name):
    if name == 'Metadata':
        return [M.JSON.Std, M.XML.RDF, M.JSON.LD, M.XML.CapiTainS.CTS]
    if name in ('Collection', 'ResourceCollection', 'DtsCollection'):
        return COLL
    if name == 'Citation':
        return [M.XML.CTS, M.XML.TEI, M.JSON.DTS.Std]
    if name in ('BaseCitationSet', 'DtsCitationSet', 'DtsCitation'):
        return [M.JSON.DTS.Std]
    if name.startswith('Capitains') or name == 'simple passage':
        return TEI
    if name.startswith('Textual'):
        return []
    return CTSC


def right_kind(mime, out):
    if mime in (M.XML.Std, M.XML.TEI, M.XML.CTS, M.XML.CapiTainS.CTS, M.PLAINTEXT, M.JSON.LD, M.XML.RDF):
        return isinstance(out, (str, bytes))
    if mime in (M.PYTHON.NestedDict, M.JSON.Std, M.JSON.DTS.Std):
        return isinstance(out, (dict, list))
    return etree.iselement(out)


def h_package(sx, suffix):
    every = objects(sx)
    name, obj, default = every[sx.choice('object', list(range(len(every))))]
    mime = sx.choice('mimetype', ALL + ['', None])
    if mime is None:
        if default is None:
            sx.check(raises(NotImplementedError, lambda: obj.export()) is not None, 'no default mimetype')
        else:
            out = obj.export()
            sx.check(right_kind(default, out), 'the default mimetype', got=type(out).__name__)
        return
    cut = sx.choice('kept', [None, 4])
    m = mime if cut is None else mime[:cut]
    m = m + sx.str('suffix', sx.choice('suffix length', suffix), ':CTSa/')
    caps = obj.export_capacities
    sx.check(sorted(set(caps)) == sorted(promised(name)), 'capacities', got=sorted(set(caps)), want=sorted(promised(name)))
    hit = None
    for p in promised(name):
        if p == m:
            hit = p
    if hit is None:
        sx.check(raises(NotImplementedError, lambda: obj.export(m)) is not None, 'refused')
    else:
        out = obj.export(hit)
        sx.check(out is not None and right_kind(hit, out), 'every listed mimetype works', got=type(out).__name__)


R = Registry()
R.add('user', h_user, dict(levels=[1, 2], declare=[None, 0, 1], lens=[1], txt='xy'), dict(levels=[1, 2, 3], declare=[None, 1, 2], lens=[0, 1], txt='xyz'), 'user-defined classes')
R.add('deep', h_user, dict(levels=[3], declare=[None, 1], lens=[1], txt='xy'), None, 'three levels')
R.add('mixin', h_user, dict(levels=[2], declare=[None, 1], lens=[1], txt='xy', mixin=(True,)), dict(levels=[2], declare=[None, 1, 2], lens=[1], txt='xyz', mixin=(True,)), 'two bases')
R.add('package', h_package, dict(suffix=[0, 1]), dict(suffix=[0, 1, 2]), 'the classes of the package')
names, get, bounds = R.names, R.get, R.bounds
