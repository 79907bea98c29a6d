"""C29 Lazily loaded DTS collections list every child or parent once."""
import requests
from rdflib.namespace import DCTERMS
from MyCapytain.common.constants import bind_graph, set_graph
from MyCapytain.errors import UnknownCollection
from MyCapytain.resolvers.dts.api_v1 import HttpDtsResolver
from props._http import Answer, Net
from props._util import Registry, raises

ENDPOINT = 'http://dts.example/api/dts/'
CTX = {'@vocab': 'https://www.w3.org/ns/hydra/core#', 'dts': 'https://w3id.org/dts/api#', 'dct': 'http://purl.org/dc/terms/'}
ENTRY = {'collections': './collections', 'documents': './documents', 'navigation': './navigation'}
NEXT = ['./collections?id=x&page={p}', '?page={p}&nav=children', 'http://dts.example/api/dts/collections?startpage=99&page={p}&page_size=7']


class Node:
    def __init__(self, ident, title, readable=False):
        self.id, self.title, self.readable = ident, title, readable
        self.children, self.parents = [], []
        # pages of each direction: lists of nodes
        self.pages = {}

    def brief(self):
        d = {'@id': self.id, '@type': 'Resource' if self.readable else 'Collection', 'title': self.title, 'totalItems': len(self.children)}
        return d


def paginate(members, split):
    out, at = [], 0
    for s in split:
        out.append(members[at:at + s])
        at += s
    if at < len(members) or not out:
        out.append(members[at:])
    return out


class Server:
    def __init__(self, sx, nodes, always_view, down=(), form=0, first=2):
        # Pages after the first have the numbers first, first + 1...
        self.next, self.nodes, self.view, self.down, self.first = NEXT[form], nodes, always_view, set(down), first
        self.net = Net(sx, self.answer)

    def link(self, k):
        return self.next.format(p=k if k == 1 else k - 2 + self.first)

    def answer(self, call):
        if not call.url.endswith('collections'):
            return Answer(ENTRY)
        ident, nav, page = call.get('id', 'urn:root'), call.get('nav', 'children'), int(call.get('page', '1'))
        if page > 1:
            page += 2 - self.first
            if page < 2:
                return Answer({}, 404)
        for n in self.nodes:
            if n.id == ident:
                break
        else:
            return Answer({}, 404)
        pages = n.pages.get(nav) or [n.children if nav == 'children' else n.parents]
        if page > len(pages):
            return Answer({}, 404)
        if (n.id, nav, page) in self.down:
            self.down.discard((n.id, nav, page))
            return Answer({}, 503)
        d = {'@context': CTX}
        d.update(n.brief())
        d['dts:dublincore'] = {'dct:creator': ['creator of ' + n.title]}
        members = [m.brief() for m in pages[page - 1]]
        if members:
            d['member'] = members
        if len(pages) > 1 or self.view:
            d['view'] = {'@id': '/v', '@type': 'PartialCollectionView', 'first': self.next.format(p=1), 'last': self.link(len(pages))}
            if page < len(pages):
                d['view']['next'] = self.link(page + 1)
            if page > 1:
                d['view']['previous'] = self.link(page - 1)
        return Answer(d)


def world(sx, n, splits, psplits, lens, txt, down=(), forms=(0,), firsts=(2,)):
    """root with n children (the last readable, the first with a child of its own), parents of root and of the first child"""
    root = Node('urn:root', 'Root')
    kids = []
    for k in range(n):
        ident = 'urn:' + sx.str('child %d' % k, sx.choice('length %d' % k, lens), txt)
        for m in kids:
            sx.assume(m.id != ident)
        kids.append(Node(ident, 'Child %d' % k, readable=k == n - 1 and n > 1))
    grand = Node('urn:grandchild', 'Grandchild', readable=True)
    above = [Node('urn:above0', 'Above 0'), Node('urn:above1', 'Above 1')][:sx.choice('parents', [0, 1, 2])]
    other = Node('urn:other', 'Other')
    root.children, root.parents = kids, above
    for a in above:
        a.children = [root]
    for k in kids:
        k.parents = [root]
    if kids:
        kids[0].children, grand.parents = [grand], [kids[0]]
        kids[0].parents = sx.choice('order of parents', [[root, other], [other, root]])
        other.children = [kids[0]]
    root.pages['children'] = paginate(kids, sx.choice('pages', splits))
    root.pages['parents'] = paginate(above, sx.choice('pages of parents', psplits))
    if kids:
        kids[0].pages['parents'] = paginate(kids[0].parents, sx.choice('pages of parents', psplits))
    s = Server(sx, [root] + kids + [grand, other] + above, sx.bool('always a view'), down, sx.choice('next link', forms), sx.choice('number of the second page', list(firsts)))
    return s, root, kids


def ids(objs):
    return sorted(o.id for o in objs)


class Ops:
    """each operation returns what is to be compared when it is asked again"""

    def __init__(self, sx, col, root, kids, asked, tag=''):
        self.sx, self.col, self.root, self.kids, self.asked = sx, col, root, kids, asked

    def run(self, op):
        return getattr(self, 'do_' + op)()

    def same(self, got, want, what):
        self.sx.check(got == want, what, got=got, want=want)

    def do_children(self):
        keys = list(self.col.children.keys())
        self.same(sorted(keys), ids(self.kids), 'every child once')
        vals = list(self.col.children.values())
        self.same(sorted(v.id for v in vals), ids(self.kids), 'every child once')
        return vals

    def do_walk(self):
        got = [c for c in self.col.children]
        self.same(sorted(got), ids(self.kids), 'walking gives every child once')
        return got

    def do_members(self):
        got = self.col.members
        self.same(ids(got), ids(self.kids), 'members')
        for m in got:
            for k in self.kids:
                if k.id == m.id:
                    self.same((str(m.get_label()), m.size, m.readable), (k.title, len(k.children), k.readable), 'what the members are')
        return got

    def do_held(self):
        held = self.col.children
        a, b = sorted(held.keys()), sorted(held.keys())
        self.same((a, b), (ids(self.kids), ids(self.kids)), 'a list of children which is kept')
        return a

    def do_number(self):
        self.same(len(self.col.children), len(self.kids), 'number of children')
        return len(self.col.children)

    def do_size(self):
        self.same(self.col.size, len(self.kids), 'size')
        return self.col.size

    def do_lookup(self):
        if self.asked is None:
            e = raises(KeyError, lambda: self.col['nowhere'])
            self.sx.check(isinstance(e, UnknownCollection), 'an unknown member raises')
            return None
        got = self.col[self.asked]
        self.same(got.id, self.asked, 'lookup')
        return [got]

    def do_child(self):
        if self.asked is None:
            self.sx.check(raises(KeyError, lambda: self.col.children['nowhere']) is not None, 'an unknown child raises')
            return None
        got = self.col.children[self.asked]
        self.same(got.id, self.asked, 'lookup among children')
        return [got]

    def do_contains(self):
        got = ('nowhere' if self.asked is None else self.asked) in self.col.children
        self.same(got, self.asked is not None, 'membership')
        return got

    def do_parents(self):
        got = [p for p in self.col.parents]
        self.same(ids(got), ids(self.root.parents), 'every parent once')
        return sorted(got, key=lambda o: o.id)

    def do_kin(self):
        if not self.kids:
            return None
        out = []
        for k in self.kids if self.sx.bool('the first child first') else self.kids[::-1]:
            kid = self.col[k.id]
            got = [p for p in kid.parents]
            self.same(ids(got), ids(k.parents), 'every parent of a child once')
            self.sx.check(any(p is self.col for p in got), 'the collection it was reached from among them')
            out += sorted(got, key=lambda o: o.id)
        return sorted(out, key=lambda o: o.id)

    def do_retrieve(self):
        if not self.kids:
            return None
        kid = self.col[self.kids[0].id]
        kid.retrieve()
        got = [str(x) for x in kid.metadata.get(DCTERMS.creator)]
        self.same(got, ['creator of ' + self.kids[0].title], 'metadata retrieved')
        return got

    def do_tree(self):
        got = ids(self.col.readableDescendants)
        want = [k.id for k in self.kids if k.readable] + (['urn:grandchild'] if self.kids else [])
        self.same(got, sorted(want), 'readable descendants')
        return got


def h_history(sx, n, splits, psplits, lens, txt, ops, steps, forms=(0,), firsts=(2,)):
    set_graph(bind_graph())
    server, root, kids = world(sx, sx.choice('children', n), splits, psplits, lens, txt, forms=forms, firsts=firsts)
    col = HttpDtsResolver(ENDPOINT).getMetadata('urn:root')
    k = sx.choice('looked up', [None] + list(range(len(kids))))
    o = Ops(sx, col, root, kids, None if k is None else kids[k].id)
    for i in range(steps):
        op = sx.choice('operation %d' % i, ops)
        first = o.run(op)
    before = len(server.net.calls)
    again = o.run(op)
    sx.check(len(server.net.calls) == before, 'asking again downloads nothing', operation=op)
    if isinstance(first, list):
        sx.check(len(first) == len(again) and all(x is y or (isinstance(x, str) and x == y) for x, y in zip(first, again)), 'and yields the same', operation=op)
        sx.observe('result', [x if isinstance(x, str) else x.id for x in first])
    sx.check(sum(1 for c in server.net.calls if c.url == ENDPOINT) == 1, 'the entry document is read once')


def h_faults(sx, n, splits, psplits, lens, txt, ops):
    """a page which fails once"""
    set_graph(bind_graph())
    nav, page = sx.choice('direction', ['children', 'parents']), sx.choice('page', [1, 2, 3])
    server, root, kids = world(sx, n, splits, psplits, lens, txt)
    col = HttpDtsResolver(ENDPOINT).getMetadata('urn:root')
    server.down.add(('urn:root', nav, page))
    o = Ops(sx, col, root, kids, None)
    op = sx.choice('operation', ops)
    failed = raises(requests.HTTPError, lambda: o.run(op)) is not None
    sx.observe('failed', failed)
    o.run(op)
    before = len(server.net.calls)
    o.run(op)
    sx.check(len(server.net.calls) == before, 'asking again downloads nothing', operation=op)


def h_two(sx, n, splits, psplits, lens, txt, ops):
    """two collections of one resolver, or the same one twice: neither disturbs the other"""
    set_graph(bind_graph())
    server, root, kids = world(sx, sx.choice('children', n), splits, psplits, lens, txt)
    resolver = HttpDtsResolver(ENDPOINT)
    nodes = {x.id: x for x in server.nodes}
    held = []
    for i, name in enumerate(['urn:root', sx.choice('second', ['urn:root', 'urn:other'])]):
        held.append(Ops(sx, resolver.getMetadata(name), nodes[name], nodes[name].children, nodes[name].children[0].id))
    for i in range(2):
        op = sx.choice('operation %d' % i, ops)
        first = held[i].run(op)
    again = held[0].run(op)
    before = len(server.net.calls)
    held[0].run(op)
    sx.check(len(server.net.calls) == before, 'asking again downloads nothing', operation=op)
    sx.observe('both', [ids(held[0].col.children.values()), ids(held[1].col.children.values())])


def h_unknown(sx):
    set_graph(bind_graph())
    status = sx.choice('status', [404, 500])
    Net(sx, lambda call: Answer({}, status) if call.url.endswith('collections') else Answer(ENTRY))
    sx.check(raises(requests.HTTPError, lambda: HttpDtsResolver(ENDPOINT).getMetadata('x')) is not None, 'an unknown collection raises')


R = Registry()
OPS = [x[3:] for x in sorted(vars(Ops)) if x.startswith('do_')]
SPLITS = [(), (1,), (1, 1)]
R.add('children', h_history, dict(n=[0, 1, 2, 3], splits=SPLITS, psplits=[()], lens=[1], txt='ab', ops=OPS, steps=1),
      dict(n=[0, 1, 2, 3, 4], splits=SPLITS + [(2,), (2, 1), (0, 1), (1, 1, 1)], psplits=[()], lens=[1, 2], txt='ab:', ops=OPS, steps=1), 'any first question')
R.add('parents', h_history, dict(n=[1], splits=[()], psplits=[(), (1,), (1, 1)], lens=[1], txt='a', ops=['parents', 'kin', 'retrieve', 'lookup', 'children'], steps=2),
      dict(n=[1, 2], splits=[(), (1,)], psplits=[(), (1,), (1, 1)], lens=[1], txt='ab', ops=['parents', 'kin', 'retrieve', 'lookup', 'children'], steps=3), 'parents')
R.add('two', h_two, dict(n=[2], splits=[(), (1,)], psplits=[()], lens=[1], txt='ab', ops=OPS),
      dict(n=[2, 3], splits=[(), (1,)], psplits=[(), (1,)], lens=[1], txt='abc', ops=OPS), 'two collections')
R.add('links', h_history, dict(n=[2, 3], splits=[(1,), (1, 1)], psplits=[(1,)], lens=[1], txt='abc', ops=['children', 'parents', 'number'], steps=1, forms=[0, 1, 2], firsts=[2, 9, 99]),
      dict(n=[2, 3], splits=[(1,), (1, 1)], psplits=[(1,), (1, 1)], lens=[1], txt='abc', ops=['children', 'parents', 'number'], steps=2, forms=[0, 1, 2], firsts=[2, 9, 99]), 'forms of the links between pages')
R.add('history', h_history, dict(n=[2], splits=[(), (1,)], psplits=[()], lens=[1], txt='ab', ops=OPS, steps=2),
      dict(n=[2], splits=[(), (1,)], psplits=[()], lens=[1], txt='ab', ops=OPS, steps=3), 'sequences of questions')
R.add('faults', h_faults, dict(n=3, splits=SPLITS, psplits=[(), (1,)], lens=[1], txt='abc', ops=['children', 'walk', 'parents', 'number', 'lookup', 'tree']),
      dict(n=3, splits=SPLITS + [(2,), (1, 1, 1)], psplits=[(), (1,), (1, 1)], lens=[1], txt='abc', ops=OPS), 'a page fails once')
R.add('unknown', h_unknown, {}, {}, 'no such collection')
names, get, bounds = R.names, R.get, R.bounds
