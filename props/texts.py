"""Local TEI texts with arbitrary identifiers and contents, and the answers expected from them."""
import io
from lxml import etree
from MyCapytain.common.reference import Citation, CtsReference, URN
from MyCapytain.common.utils.xml import xmlparser
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText

TEI = 'http://www.tei-c.org/ns/1.0'
NS = '{' + TEI + '}'
XMLNS = '{http://www.w3.org/XML/1998/namespace}'
IDS = 'a-zA-Z0-9'
TXT = 'a-z0-9.\u03b1-\u03c9'
# where the scheme starts from; all but WHOLE leave out the way to the edition
BASES = {'edition': "/tei:TEI/tei:text/tei:body/tei:div[@type='edition']", 'body': '/tei:TEI/tei:text/tei:body', 'text': '/tei:TEI/tei:text', 'root': '/tei:TEI',
         'nothing': '', 'step': "/tei:TEI//tei:body/tei:div[@type='edition']", 'steps': "/tei:TEI//tei:body//tei:div[@type='edition']", 'any': "//tei:body/tei:div[@type='edition']"}
FROM = [dict(base=b, text='word', tags=('div', 'lg', 'l'), noise=True) for b in ('root', 'body', 'step', 'steps', 'nothing', 'any')]
WHOLE = ('edition', 'step', 'steps', 'any')
ODD = '1\u03b1_)[+*\\'        # identifiers which mean something to a regular expression or an XPath


STYLES = {None: "[@%(a)s='$%(i)d']", 'double': '[@%(a)s="$%(i)d"]', 'before': "[@rend='v'][@%(a)s='$%(i)d']", 'after': "[@%(a)s='$%(i)d'][@rend='v']",
          'and': "[@rend='v' and @%(a)s='$%(i)d']", 'and after': "[@%(a)s=\"$%(i)d\" and @rend=\"v\"]"}
STYLED = [dict(style='double', attr='n2', text='word'), dict(style='before', decoy=True, text='word'), dict(style='after', decoy=True, text='word', attr=('xml:base', 'n', 'corresp')),
          dict(style='and', decoy=True, text='word', tags=('div', 'lg', 'l')), dict(style='and after', decoy=True, text='word', attr=('n', 'n2', 'xml:base'), header=True)]


class Node:
    def __init__(self, n, path, el):
        self.n, self.path, self.el, self.kids = n, path, el, []

    @property
    def ref(self):
        return '.'.join(self.path)


class Model:
    """what the text contains"""

    def __init__(self):
        self.top = []
        self.depth = 0

    def level(self, k):
        """nodes of a level (1-based) in document order"""
        cur = self.top
        for _ in range(k - 1):
            cur = [x for n in cur for x in n.kids]
        return cur

    def all(self):
        out = []

        def walk(ns):
            for n in ns:
                out.append(n)
                walk(n.kids)
        walk(self.top)
        return out

    def find(self, comps):
        """node with these components or None"""
        kids, node = self.top, None
        for c in comps:
            node = None
            for k in kids:
                if k.n == c:
                    node = k
                    break
            if node is None:
                return None
            kids = node.kids
        return node

    def leaves(self, node=None):
        out = []

        def walk(n):
            if not n.kids:
                out.append(n)
            for k in n.kids:
                walk(k)
        for n in ([node] if node is not None else self.top):
            walk(n)
        return out

    def span(self, start, end):
        """leaves from the first of start to the last of end; None when end precedes start"""
        ls = self.leaves()
        a, b = ls.index(self.leaves(start)[0]), ls.index(self.leaves(end)[-1])
        return ls[a:b + 1]

    def within(self, leaves, k):
        """nodes of level k above, at or below these leaves"""
        out = []
        for n in self.level(k):
            mine = self.leaves(n)
            if any(x in leaves for x in mine):
                out.append(n)
        return out


def build(sx, shape, ids=None, lens=1, seps=('/',), noise=False, text='sym', inner=False, wrap=False, tags=('div', 'div', 'div', 'l'),
          objectify=True, attr='n', urn='urn:cts:lat:a.b.c', idtxt=IDS, ids_fixed=False, header=False, tail=False,
          txt=TXT, txtlen=1, pre='', distract=False, base='edition', unique=True, style=None, decoy=False, given=('element',)):
    """shape: nested lists; an int k at the end stands for k lines.  Returns (text, model).
    given: what the text is made from
    style: how the scheme writes its tests; attr: one for every level or one for each"""
    depth = shape_depth(shape)
    m = Model()
    m.depth = depth
    names = list(tags[-depth:])
    root = etree.fromstring(
        '<TEI xmlns="%s"><teiHeader/><text xml:lang="lat"><body rend="b"><div type="edition" n="E"/></body></text></TEI>' % TEI)
    ed = root.find('.//' + NS + 'div')
    ed.set('resp', sx.str('resp', 1, TXT))
    count = [0]

    attrs = [attr] * depth if isinstance(attr, str) else list(attr)[:depth]

    def named(a):
        return XMLNS + a.split(':')[1] if ':' in a else a

    def put(parent, kids, path, lv, into):
        siblings = []
        attr = attrs[lv]
        if decoy:
            # no passage, though it has the name and the attribute of one
            x = etree.SubElement(parent, NS + names[lv], {'rend': 'w', named(attr): '1'})
            x.text = 'x'
        if noise and lv > 0:
            h = etree.SubElement(parent, NS + 'head')
            h.text = 'H'
        top = parent
        if wrap is True and lv > 0 and seps[lv] == '//':
            parent = etree.SubElement(parent, NS + 'lg', {'met': 'x'})
        for i, k in enumerate(kids):
            tag = names[lv]
            if isinstance(wrap, list) and lv > 0 and seps[lv] == '//':
                # wrap: for each passage how many elements wrap it; negative: the same as the one before
                w = wrap[i % len(wrap)]
                if w >= 0:
                    parent = top
                    for _ in range(w):
                        parent = etree.SubElement(parent, NS + 'lg', {'met': 'x'})
            el = etree.SubElement(parent, NS + tag)
            pos = '.'.join(str(x) for x in path[1]) + ('.' if path[1] else '') + str(i)
            if ids_fixed:
                n = str(i + 1)
            else:
                n = sx.str('id ' + pos, lens, idtxt)
                if unique:
                    for s in siblings:
                        sx.assume(n != s)
            siblings.append(n)
            el.set(named(attr), n)
            if decoy:
                el.set('rend', 'v')
            if distract:
                # other attributes, some of the same local name
                el.set('{http://x.example}' + attr.split(':')[-1], 'zz')
                if ':' in attr:
                    el.set(attr.split(':')[1], 'zz')
                    el.set('n', 'q')
            if tag == 'div':
                el.set('type', 'textpart')
            node = Node(n, path[0] + [n], el)
            into.append(node)
            if k is None:
                c = count[0]
                count[0] += 1
                if text == 'sym':
                    el.text = pre + sx.str('text ' + pos, txtlen, txt)
                elif text == 'same':
                    el.text = 'same'
                elif text == 'numbers':
                    el.text = str(c % 2)
                elif text == 'word':
                    el.text = 'w%d' % c
                if inner:
                    hi = etree.SubElement(el, NS + 'hi', {'rend': 'i'})
                    hi.text = pre + sx.str('inner ' + pos, txtlen, txt) if text == 'sym' else 'h%d' % c
                    if inner == 'deep':
                        # more elements inside
                        x = hi
                        for j, name in enumerate(('seg', 'w', 'c')):
                            x = etree.SubElement(x, NS + name)
                            x.text = ' %s' % name
                            x.tail = ' %d ' % j
                    hi.tail = pre + sx.str('tail ' + pos, txtlen, txt) if text == 'sym' else 't%d' % c
            else:
                put(el, k, (path[0] + [n], path[1] + [i]), lv + 1, node.kids)
            if noise and i == 0:
                etree.SubElement(parent, NS + 'lb', {'ed': 'z'})
                parent.append(etree.Comment('c'))
            if tail:
                el.tail = pre + sx.str('after ' + pos, txtlen, txt) if text == 'sym' else {'word': ' loose '}.get(text, '\n')
    put(ed, expand(shape), ([], []), 0, m.top)
    decls = []
    d = BASES[base]
    for i in range(depth):
        sep = seps[i] if i < len(seps) else '/'
        part = ''
        if i == 0 and base not in WHOLE:
            # what is below the edition, wherever it is
            sep, part = '//', "[@type='textpart']" if names[i] == 'div' else ''
        d += sep + 'tei:' + names[i] + part + STYLES[style] % {'a': attrs[i], 'i': i + 1}
        decls.append(d)
    m.decls = decls
    if header:
        rd = etree.SubElement(etree.SubElement(root[0], NS + 'encodingDesc'), NS + 'refsDecl', {'n': 'CTS'})
        for i in reversed(range(depth)):
            etree.SubElement(rd, NS + 'cRefPattern', {'n': 'level%d' % (i + 1),
                                                      'replacementPattern': '#xpath(' + decls[i] + ')'})
        cit = None
    else:
        cit = None
        for i in reversed(range(depth)):
            cit = Citation(name='level%d' % (i + 1), refsDecl=decls[i], child=cit)
    given = sx.choice('given as', list(given))
    res = etree.tostring(root, encoding='unicode')
    if given in ('element', 'tree'):
        res = xmlparser(res, objectify=objectify)
        remap(root, res, m)
        if given == 'tree':
            res = res.getroottree()
    elif given == 'file':
        res = io.StringIO(res)
    t = CapitainsCtsText(urn=URN(urn) if urn else None, citation=cit, resource=res)
    if given in ('text', 'file'):
        remap(root, t.xml, m)
    return t, m


def remap(old, new, m):
    """point the model at the elements of the parsed tree"""
    by = {}
    for a, b in zip(old.iter(), new.iter()):
        by[id(a)] = (a, b)
    for n in m.all():
        n.el = by[id(n.el)][1]


def expand(shape):
    if isinstance(shape, int):
        return [None] * shape
    return [expand(s) for s in shape]


def shape_depth(shape):
    if isinstance(shape, int):
        return 1
    return 1 + max(shape_depth(s) for s in shape)


def element(x):
    """the element of a text given as an lxml tree"""
    return x.getroot() if hasattr(x, 'getroot') else x


# raw_ functions run as they are: they never ask anything about a symbolic value
def raw_local(tag):
    return tag.rsplit('}', 1)[-1] if isinstance(tag, str) else '#'


def raw_kind(el):
    """local name; '#' for comments, which lxml.objectify shows as elements without namespace"""
    tag = el.tag
    if not isinstance(tag, str) or (tag == 'comment' and etree.tostring(el, with_tail=False).startswith(b'<!--')):
        return '#'
    return tag.rsplit('}', 1)[-1]


def raw_attrs(el):
    return [(raw_local(k), v) for k, v in sorted(el.attrib.items(), key=lambda x: x[0]) if 'objectify/pytype' not in k]


def raw_snap(el):
    """tree as plain data: (tag, attributes, text, children, tails); lxml.objectify's own annotation left out"""
    el = element(el)
    if raw_kind(el) == '#':
        return ('#', [], '', [])
    return (raw_kind(el), raw_attrs(el), el.text or '', [(raw_snap(c), c.tail or '') for c in el.iterchildren()])


local, kind, attrs, snap = raw_local, raw_kind, raw_attrs, raw_snap


def texts_of(el):
    return ''.join(t for t in el.itertext())
