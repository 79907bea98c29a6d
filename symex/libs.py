"""Models at the boundary to C libraries (lxml) and to rdflib's triple store, plus instrumented
copies of the pure-Python library functions the code under test calls on its inputs."""
import copy
import json
import re
import urllib.parse
import rdflib
from rdflib.term import Identifier, Literal, URIRef, BNode
import rdflib.plugins.stores.memory as rmem
from lxml import etree, objectify
from .core import E, has_sym, deep_sym, SymInt, Unmodelled, norm, BASE_CH
from . import strings as S
from . import rt
from . import xpath as X

XML_SPECIAL = norm([(ord(c), ord(c)) for c in '<>&"\'']) 
XML_WS = [(9, 10), (13, 13)]
XML_ILLEGAL = norm([(0, 8), (11, 12), (14, 31), (0xD800, 0xDFFF), (0xFFFE, 0xFFFF)])
XML_TRICKY = norm(XML_SPECIAL + XML_WS + XML_ILLEGAL)


# --------------------------------------------------------------------------- equality of library types
def id_eq(a, b):
    if isinstance(a, Identifier) and isinstance(b, Identifier):
        if type(a) is not type(b):
            return False
        if isinstance(a, Literal):
            if (a.language or '').lower() != (b.language or '').lower():
                return False
            if a.datatype != b.datatype:
                return False
        return S.str_eq(str(a), str(b))
    if isinstance(a, Identifier) or isinstance(b, Identifier):
        return False
    return NotImplemented


def obj_eq(a, b):
    """lxml.objectify compares elements by their text value."""
    ta = a.text if isinstance(a, objectify.StringElement) else (a if isinstance(a, str) else None)
    tb = b.text if isinstance(b, objectify.StringElement) else (b if isinstance(b, str) else None)
    if isinstance(a, objectify.StringElement) and ta is None:
        ta = ''
    if isinstance(b, objectify.StringElement) and tb is None:
        tb = ''
    if isinstance(ta, str) and isinstance(tb, str) and (has_sym(ta) or has_sym(tb)):
        return S.str_eq(ta, tb)
    return NotImplemented


# --------------------------------------------------------------------------- lxml
NEEDS_MODEL = ('=', 'contains', 'starts-with', 'string', 'normalize-space', '"', "'")


def h_element(f, s, name, a, k):
    if name == 'xpath':
        expr = a[0] if a else k.get('_path')
        if isinstance(expr, str):
            if has_sym(expr) or any(x in expr for x in NEEDS_MODEL):
                kk = dict(k)
                kk.pop('_path', None)
                return X.evaluate(s, expr, **kk)
            r = f(*a, **k)
            return r
    if name in ('find', 'findall', 'iterfind', 'findtext') and a and isinstance(a[0], str) and \
            (has_sym(a[0]) or '[' in a[0]):
        kk = dict(k)
        ns = kk.get('namespaces') or (a[1] if len(a) > 1 and name != 'findtext' else None)
        path, ns = clark(a[0], ns)
        r = X.evaluate(s, path, namespaces=ns)
        if name == 'find':
            return r[0] if r else None
        if name == 'findtext':
            return (r[0].text or '') if r else None
        return r if name == 'findall' else iter(r)
    if name in ('get', 'keys', 'items') or name in rt.SAFE_LXML:
        if name in ('set', '__setitem__') and len(a) > 1:
            check_xml(a[1])
        return f(*a, **k)
    return f(*a, **k)


def clark(p, ns):
    """{uri}name as prefix:name; None as the prefix of unprefixed names"""
    ns = dict(ns or {})
    if '{' in p:
        if has_sym(p):
            raise Unmodelled('clark notation with symbolic text')

        def prefixed(m):
            ns.setdefault('_ns%d' % len(ns), m.group(1))
            return [k for k, v in ns.items() if v == m.group(1) and k][0] + ':'
        p = re.sub(r'\{([^}]*)\}', prefixed, p)
    return p, ns


class XPathM(etree.XPath):
    """compiled expressions"""
    def __init__(self, path, *, namespaces=None, **k):
        super().__init__(path, namespaces=namespaces, **k)
        self.model = (path, namespaces)

    def __call__(self, node, **variables):
        path, ns = self.model
        if E.active and any(x in path for x in NEEDS_MODEL):
            return X.evaluate(node.getroot() if isinstance(node, etree._ElementTree) else node, path, namespaces=ns, **variables)
        return super().__call__(node, **variables)


class ETXPathM(XPathM):
    def __init__(self, path, **k):
        path, ns = clark(path, {})
        super().__init__(path, namespaces=ns, **k)


def check_xml(s):
    if isinstance(s, str) and has_sym(s):
        for c in S.codes(s):
            if S.code_in(c, XML_ILLEGAL):
                raise ValueError('All strings must be XML compatible')


def h_etree(f, s, name, a, k):
    if name == 'xpath':
        return h_element(s.getroot().xpath, s.getroot(), 'xpath', a, k)
    return f(*a, **k)


def h_attrib(f, s, name, a, k):
    return f(*a, **k)


def h_setattr(f, a, k):
    return f(*a, **k)


def fix_tree(el):
    """Decide, for every symbolic character of the tree, whether it needs escaping; substitute the
    concrete character when it does (lxml then escapes it)."""
    for n in el.iter():
        if not isinstance(n.tag, str):
            continue
        t = n.text
        if t and has_sym(t):
            r = S.resolve(t, XML_TRICKY)
            if r != t:
                if isinstance(n, objectify.ObjectifiedDataElement):
                    n._setText(r)
                else:
                    try:
                        n.text = r
                    except TypeError:
                        objectify_set(n, r)
        if n.tail and has_sym(n.tail):
            r = S.resolve(n.tail, XML_TRICKY)
            if r != n.tail:
                n.tail = r
        for key, v in n.attrib.items():
            if has_sym(v):
                r = S.resolve(v, XML_TRICKY)
                if r != v:
                    n.set(key, r)


def objectify_set(n, r):
    raise Unmodelled('text of an objectified container element')


def h_tostring(f, a, k):
    el = a[0]
    if isinstance(el, etree._ElementTree):
        el = el.getroot()
    fix_tree(el)
    enc = k.get('encoding', None)
    if enc is None or (isinstance(enc, str) and enc.lower() in ('ascii', 'us-ascii')):
        kk = dict(k)
        kk['encoding'] = str
        xd = kk.pop('xml_declaration', None)
        out = f(*a, **kk)
        res = []
        for ch, c in zip(out, S.codes(out)):
            if isinstance(c, int):
                res.append(ch if c < 128 else '&#%d;' % c)
            elif S.code_in(c, [(0, 127)]):
                res.append(ch)
            else:
                res.append('&#%d;' % ord(S.force(ch)))
        head = "<?xml version='1.0' encoding='ASCII'?>\n" if xd else ''
        return (head + ''.join(res)).encode('utf-8')
    return f(*a, **k)


def _prep_source(x):
    """Source text for the XML parser: a symbolic character is markup only if it equals one."""
    if isinstance(x, str) and has_sym(x):
        return S.resolve(str.__str__(x), XML_TRICKY)
    if isinstance(x, bytes):
        try:
            t = x.decode('utf-8')
        except UnicodeDecodeError:
            return x
        if has_sym(t):
            return S.resolve(t, XML_TRICKY).encode('utf-8')
        return x
    if hasattr(x, 'getvalue'):
        v = x.getvalue()
        if isinstance(v, str) and has_sym(v):
            import io
            return io.StringIO(_prep_source(v))
        if isinstance(v, bytes):
            import io
            return io.BytesIO(_prep_source(v))
    return x


def h_parse(f, a, k):
    return f(_prep_source(a[0]), *a[1:], **k)


def h_element_factory(f, a, k):
    return f(*a, **k)


# --------------------------------------------------------------------------- rdflib store
def canon_term(t):
    """The interned term equal to `t` on this path."""
    if t is None or not isinstance(t, Identifier) or not E.active:
        return t
    st = E.path_state.setdefault('terms', ({}, [], {}))
    exact, symlist, bytype = st
    key = (type(t), str(t), getattr(t, 'language', None), getattr(t, 'datatype', None))
    hit = exact.get(key)
    if hit is not None:
        return hit
    sym = has_sym(str(t))
    cands = bytype.get(type(t), ()) if sym else [x for x in symlist if type(x) is type(t)]
    for c in cands:
        if c is not t and len(c) == len(t) and id_eq(c, t):
            exact[key] = c
            return c
    exact[key] = t
    bytype.setdefault(type(t), []).append(t)
    if sym:
        symlist.append(t)
    return t


def canon_triple(tr):
    return tuple(canon_term(x) for x in tr)


def patch_rdflib():
    for cls in (rmem.Memory, rmem.SimpleMemory):
        def wrap(cls):
            o_add, o_rem, o_tri = cls.add, cls.remove, cls.triples

            def add(self, triple, context, quoted=False):
                return o_add(self, canon_triple(triple), context, quoted)

            def remove(self, triple_pattern, context=None):
                return o_rem(self, canon_triple(triple_pattern), context)

            def triples(self, triple_pattern, context=None):
                return o_tri(self, canon_triple(triple_pattern), context)
            cls.add, cls.remove, cls.triples = add, remove, triples
        wrap(cls)


# --------------------------------------------------------------------------- json / urls
def h_json_dumps(f, a, k):
    if deep_sym(a[0]):
        v = json_fix(a[0])
        kk = dict(k)
        if kk.get('ensure_ascii', True):
            kk['ensure_ascii'] = False
            E.notes.add('json.dumps: non-ASCII escapes not modelled')
        return f(v, *a[1:], **kk)
    return f(*a, **k)


JSON_SPECIAL = norm([(0, 31), (34, 34), (92, 92)])


def json_fix(v):
    if isinstance(v, str):
        return S.resolve(v, JSON_SPECIAL)
    if isinstance(v, SymInt):
        return v.__index__()
    if isinstance(v, dict):
        return {json_fix(x): json_fix(y) for x, y in v.items()}
    if isinstance(v, (list, tuple)):
        return [json_fix(x) for x in v]
    return v


def h_json_loads(f, a, k):
    s = a[0]
    if isinstance(s, bytes):
        s = s.decode('utf-8')
    if isinstance(s, str) and has_sym(s):
        return f(S.resolve(s, JSON_SPECIAL), *a[1:], **k)
    return f(*a, **k)


ALWAYS_SAFE = norm([(48, 57), (65, 90), (97, 122)] + [(ord(c), ord(c)) for c in '_.-~'])


def sym_quote(s, safe='/', plus=False):
    ok = norm(ALWAYS_SAFE + [(ord(c), ord(c)) for c in safe] + ([(32, 32)] if plus else []))
    out = []
    for c in S.codes(s):
        if isinstance(c, int):
            out.append(urllib.parse.quote_plus(chr(c), safe) if plus else urllib.parse.quote(chr(c), safe))
        elif S.code_in(c, ok):
            if plus and S.code_is(c, 32):
                out.append('+')
            else:
                out.append(chr(c.cp))
        else:
            v = S.force(chr(c.cp))
            out.append(urllib.parse.quote(v, safe))
    return ''.join(out)


def h_quote(f, a, k):
    s = a[0]
    if isinstance(s, str) and has_sym(s):
        return sym_quote(s, a[1] if len(a) > 1 else k.get('safe', '/'))
    return f(*a, **k)


def h_quote_plus(f, a, k):
    s = a[0]
    if isinstance(s, str) and has_sym(s):
        return sym_quote(s, a[1] if len(a) > 1 else k.get('safe', ''), plus=True)
    return f(*a, **k)


def h_urlencode(f, a, k):
    q = a[0]
    if not deep_sym(q):
        return f(*a, **k)
    doseq = k.get('doseq', a[1] if len(a) > 1 else False)
    out = []
    for key, v in (q.items() if hasattr(q, 'items') else q):
        vs = v if doseq and isinstance(v, (list, tuple)) else [v]
        for x in vs:
            out.append(sym_quote(str(key), '', True) + '=' + sym_quote(str(x), '', True))
    return '&'.join(out)


def sym_unquote(s, plus=False):
    """percent-decoding: symbolic '%' introduces concrete escapes."""
    s = S.resolve(s, norm([(37, 37), (43, 43)]) if plus else [(37, 37)])
    if plus:
        s = s.replace('+', ' ')
    i = 0
    while True:
        i = s.find('%', i)
        if i < 0:
            break
        for k in (1, 2):
            if i + k < len(s) and has_sym(s[i + k]):
                s = s[:i + k] + S.force(s[i + k]) + s[i + k + 1:]
        i += 1
    return urllib.parse.unquote(s)


def h_unquote(f, a, k):
    if isinstance(a[0], str) and has_sym(a[0]):
        return sym_unquote(a[0])
    return f(*a, **k)


def h_unquote_plus(f, a, k):
    if isinstance(a[0], str) and has_sym(a[0]):
        return sym_unquote(a[0], True)
    return f(*a, **k)


def _via_twin(tw):
    def h(f, a, k):
        if deep_sym(a) or deep_sym(k):
            return tw(*a, **k)
        return f(*a, **k)
    return h


def h_deepcopy(f, a, k):
    return f(*a, **k)


def real_path(p):
    """The existing file or directory whose path equals the symbolic `p` on this path (forking), or
    `p` itself: no file has a symbolic name."""
    if not isinstance(p, str) or not has_sym(p):
        return p
    i = next(k for k in range(len(p)) if has_sym(p[k]))
    base = p[:p.rfind('/', 0, i) + 1] or '.'
    import os
    found = []
    for d, subs, files in os.walk(base):
        for n in subs + files:
            q = os.path.join(d, n)
            q = q[2:] if base == '.' else q
            if len(q) == len(p):
                found.append(q)
    for q in sorted(found):
        if S.str_eq(p, q):
            return q
    return p


def h_file(f, a, k):
    return f(real_path(a[0]), *a[1:], **k) if a else f(*a, **k)


def setup():
    from .rewrite import twin
    rt.EQ_HOOKS.append((Identifier, id_eq))
    rt.EQ_HOOKS.append((objectify.ObjectifiedElement, obj_eq))
    rt.BOUND_HOOKS.append((etree._Element, h_element))
    rt.BOUND_HOOKS.append((etree._ElementTree, h_etree))
    etree.XPath, etree.ETXPath = XPathM, ETXPathM
    for name in ('tostring', 'tounicode'):
        fn = getattr(etree, name, None)
        if fn is not None:
            rt.MOD_HOOKS[fn] = h_tostring
    for fn in (etree.fromstring, etree.parse, etree.XML, objectify.parse, objectify.fromstring, objectify.XML):
        rt.MOD_HOOKS[fn] = h_parse
    rt.FUNC_F[json.dumps] = h_json_dumps
    rt.FUNC_F[json.loads] = h_json_loads
    rt.FUNC_F[urllib.parse.quote] = h_quote
    rt.FUNC_F[urllib.parse.quote_plus] = h_quote_plus
    rt.FUNC_F[urllib.parse.urlencode] = h_urlencode
    rt.FUNC_F[urllib.parse.unquote] = h_unquote
    rt.FUNC_F[urllib.parse.unquote_plus] = h_unquote_plus
    up = twin('urllib.parse')
    # inside the copy, quoting works on whole strings
    up.quote = urllib.parse.quote
    up.quote_plus = urllib.parse.quote_plus
    up.unquote = urllib.parse.unquote
    up.unquote_plus = urllib.parse.unquote_plus
    for n in ('urlparse', 'urlsplit', 'urljoin', 'urlunparse', 'urlunsplit', 'parse_qs', 'parse_qsl', 'urldefrag'):
        tw = getattr(up, n)
        tw = getattr(tw, '__wrapped__', tw)
        setattr(up, n, tw)
        orig = getattr(urllib.parse, n)
        (rt.FUNC_F if hasattr(orig, '__code__') else rt.MOD_HOOKS)[orig] = _via_twin(tw)
    import xml.sax.saxutils as sx
    st = twin('xml.sax.saxutils')
    for n in ('escape', 'unescape', 'quoteattr'):
        rt.FUNC_F[getattr(sx, n)] = _via_twin(getattr(st, n))
    import html
    ht = twin('html')
    rt.FUNC_F[html.escape] = _via_twin(ht.escape)
    import link_header
    lt = twin('link_header')
    rt.FUNC_F[link_header.parse] = _via_twin(lt.parse)
    import posixpath
    pt = twin('posixpath')
    for n in ('join', 'dirname', 'basename', 'split', 'splitext', 'normpath'):
        rt.FUNC_F[getattr(posixpath, n)] = _via_twin(getattr(pt, n))
    import io
    import os
    import genericpath
    rt.MOD_HOOKS[io.open] = h_file
    for fn in (posixpath.isfile, posixpath.isdir, posixpath.exists, os.stat, os.listdir, os.scandir):
        (rt.FUNC_F if hasattr(fn, '__code__') else rt.MOD_HOOKS)[fn] = h_file
    patch_rdflib()
