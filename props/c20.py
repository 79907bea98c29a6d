"""C20 The dispatcher files each item under the matching collection registered last."""
from MyCapytain.errors import UndispatchedTextError
from MyCapytain.resolvers.utils import CollectionDispatcher
from MyCapytain.resources.prototypes.metadata import Collection
from MyCapytain.resources.prototypes.cts.inventory import CtsTextInventoryCollection, CtsTextInventoryMetadata, CtsTextgroupMetadata
from props._util import Registry, raises


def h_dispatch(sx, inventories, methods, items, plens, by, defaults, late=(0,), txt='ab', again=False, owned=False):
    n = sx.choice('inventories', inventories)
    if sx.choice('kind', ['cts', 'plain']) == 'cts':
        coll = CtsTextInventoryCollection('tic')
        invs = [CtsTextInventoryMetadata('inv%d' % i, parent=coll) for i in range(n)]
        make = lambda i: CtsTextgroupMetadata('urn:cts:' + i)
    else:
        coll = Collection('tic')
        invs = []
        for i in range(n):
            c = Collection('inv%d' % i)
            c.parent = coll
            invs.append(c)
        make = lambda i: Collection('urn:cts:' + i)
    default = sx.choice('default', defaults)
    d = CollectionDispatcher(coll) if default is None else CollectionDispatcher(coll, default_inventory_name='inv%d' % min(default, n - 1))
    rules = [(0 if default is None else min(default, n - 1), lambda i, p: True)]
    if sx.bool('without default'):
        d.methods.pop(0)
        rules = []
    seen = []
    if owned:
        elsewhere = CtsTextInventoryMetadata('elsewhere') if sx.bool('in an inventory') else Collection('elsewhere')

    def register(k):
        target = sx.choice('target %d' % k, list(range(n)))
        how = sx.choice('criterion %d' % k, by)
        if how == 'id':
            prefix = sx.str('prefix %d' % k, sx.choice('prefix length %d' % k, plens), txt)
            rule = lambda i, p: i[:len(prefix)] == prefix
        elif how == 'path':
            word = sx.str('path of %d' % k, 1, txt)
            rule = lambda i, p: p == word
        else:
            rule = lambda i, p: how == 'all'

        def func(collection, path=None, **kwargs):
            seen.append(path)
            return rule(collection.id[len('urn:cts:'):], path)
        if sx.bool('decorated %d' % k):
            sx.check(d.inventory('inv%d' % target)(func) is func, 'the decorator returns the function')
        else:
            d.add(func, 'inv%d' % target)
        rules.append((target, rule))

    m = sx.choice('methods', methods)
    lately = min(sx.choice('registered late', list(late)), m)
    for k in range(m - lately):
        register(k)
    want = [[] for _ in invs]
    used = []
    todo = list(range(m - lately, m))
    for j in range(sx.choice('items', items)):
        if j == 1:
            for k in todo:
                register(k)
            todo = []
        ident = sx.str('item %d' % j, 2, txt)
        if again:
            # the same identifier with other arguments goes to another collection, or to none
            ident = used[0] if used else ident
        for u in used:
            if not again:
                sx.assume(u != ident)
        used.append(ident)
        path = sx.choice('path %d' % j, ['a', None]) if 'path' in by else None
        item = make(ident)
        if owned:
            # An item another collection already has
            item.parent = elsewhere
        target = None
        for t, rule in reversed(rules):
            if rule(ident, path):
                target = t
                break
        del seen[:]
        if path is not None:
            go = lambda: d.dispatch(item, path=path)
        else:
            go = lambda: d.dispatch(item)
        if target is None:
            sx.check(raises(UndispatchedTextError, go) is not None, 'an item nothing accepts is refused')
            sx.check(item.parent is (elsewhere if owned else None), 'a refused item has the parent it had')
            sx.check(again or item.id not in coll, 'a refused item is in no collection')
        else:
            go()
            if again and any(w.id == item.id for w in want[target]):
                sx.check(item.parent is invs[target], 'filed under the matching collection')
                continue
            want[target].append(item)
            sx.check(item.parent is invs[target], 'filed under the matching collection', got=str(item.parent), want='inv%d' % target)
            sx.check(again or coll[item.id] is item, 'found from the root')
        sx.check(all(p == path for p in seen), 'filters are given the arguments of the call')
        for i, inv in enumerate(invs):
            got = inv.members
            sx.check(len(got) == len(want[i]) and all(a is b for a, b in zip(got, want[i])), 'each collection holds what was sent to it',
                     got=[x.id for x in got], want=[x.id for x in want[i]])
    sx.check([c.id for c in coll.members] == ['inv%d' % i for i in range(n)], 'the sub-collections are kept')
    sx.observe('filed', [[x.id for x in inv.members] for inv in invs])


R = Registry()
R.add('one', h_dispatch, dict(inventories=[1, 2, 3], methods=[0, 1, 2], items=[1], plens=[0, 1, 2], by=['id', 'none'], defaults=[None, 1]),
      dict(inventories=[1, 2, 3], methods=[0, 1, 2, 3], items=[1], plens=[0, 1, 2], by=['id', 'none', 'all'], defaults=[None, 1]), 'one item, overlapping prefixes')
R.add('path', h_dispatch, dict(inventories=[2], methods=[0, 1, 2], items=[1, 2], plens=[1], by=['path', 'id'], defaults=[None, 1]),
      dict(inventories=[2, 3], methods=[0, 1, 2], items=[1, 2], plens=[1], by=['path', 'id', 'none'], defaults=[None, 1]), 'criteria on the arguments')
R.add('history', h_dispatch, dict(inventories=[2], methods=[1, 2], items=[2, 3], plens=[1, 2], by=['id'], defaults=[1], late=(0, 1)),
      dict(inventories=[2, 3], methods=[1, 2, 3], items=[2, 3], plens=[1, 2], by=['id'], defaults=[None, 1], late=(0, 1)), 'several items, registrations in between')
R.add('again', h_dispatch, dict(inventories=[2], methods=[1, 2], items=[2], plens=[1], by=['path', 'id'], defaults=[None], again=True),
      dict(inventories=[2, 3], methods=[1, 2], items=[2, 3], plens=[1], by=['path', 'id', 'none'], defaults=[None, 1], again=True), 'the same identifier with different arguments')
R.add('moved', h_dispatch, dict(inventories=[1, 2], methods=[1], items=[1, 2], plens=[1], by=['id'], defaults=[None], owned=True),
      dict(inventories=[1, 2, 3], methods=[1, 2], items=[1, 2], plens=[0, 1], by=['id', 'none'], defaults=[None, 1], owned=True), 'items another collection has')
names, get, bounds = R.names, R.get, R.bounds
