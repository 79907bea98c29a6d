"""C05 Reference sets behave as ordered collections of references."""
from MyCapytain.common.reference import (CtsReference, CtsReferenceSet, BaseReferenceSet, BaseReference, Citation,
                                         DtsReference, DtsReferenceSet, DtsCitation)
from props._util import Registry, raises

COMP = 'a-zA-Z0-9_'


def text(sx, tag, lens, kinds):
    k = sx.choice(tag + '.kind', kinds)
    t = sx.str(tag + '.0', lens, COMP)
    if k in (2, '2-2'):
        t = t + '.' + sx.str(tag + '.1', lens, COMP)
    if k == '1-1':
        t = t + '-' + sx.str(tag + '.end', lens, COMP)
    if k == '2-2':
        t = t + '-' + sx.str(tag + '.end', lens, COMP) + '.' + sx.str(tag + '.end1', lens, COMP)
    return t


def build(sx, cls, refs, kw):
    how = sx.choice('built from', ['list', 'arguments', 'generator', 'tuple'])
    if how == 'list':
        return cls(list(refs), **kw)
    if how == 'arguments':
        return cls(*refs, **kw)
    if how == 'generator':
        return cls((r for r in refs), **kw)
    return cls(tuple(refs), **kw)


def h_cts(sx, ns, lens, kinds):
    n = sx.choice('n', ns)
    texts = [text(sx, 'r%d' % i, lens, kinds) for i in range(n)]
    refs = [CtsReference(t) for t in texts]
    cit = Citation(name='line', refsDecl="//l[@n='$1']")
    kw = {}
    if sx.bool('with citation'):
        kw = {'citation': cit, 'level': sx.int('level', 0, 4)}
    s = build(sx, CtsReferenceSet, refs, kw)
    sx.check(isinstance(s, BaseReferenceSet), 'type')
    sx.check(len(s) == n, 'length', got=len(s))
    got = [str(r) if r is not None else None for r in s]
    sx.observe('members', got)
    sx.check(got == texts, 'members in order', got=got, want=texts)
    for i in range(n):
        sx.check(isinstance(s[i], CtsReference) and s[i] == refs[i], 'member by position')
    if kw:
        sx.check(s.citation is cit, 'citation kept')
        sx.check(s.level == kw['level'], 'level kept')
    else:
        sx.check(s.citation is None, 'no citation')
        sx.check(s.level == 1, 'default level')
    for i in range(n):
        first = [j for j in range(n) if texts[j] == texts[i]][0]
        sx.check(refs[i] in s, 'member found by reference')
        sx.check(texts[i] in s, 'member found by text')
        sx.check(s.index(refs[i]) == first, 'index by reference')
        sx.check(s.index(texts[i]) == first, 'index by text')
        sx.check(s.index(CtsReference(texts[i])) == first, 'index by an equal reference')
    q = text(sx, 'q', lens, kinds)
    pos = [j for j in range(n) if texts[j] == q]
    qr = CtsReference(q)
    sx.check((q in s) == bool(pos), 'membership of any text')
    sx.check((qr in s) == bool(pos), 'membership of any reference')
    if pos:
        sx.check(s.index(q) == pos[0] and s.index(qr) == pos[0], 'index of any text')
    else:
        sx.check(raises(ValueError, s.index, q) is not None, 'index of an absent text refused')
        sx.check(raises(ValueError, s.index, qr) is not None, 'index of an absent reference refused')
    sx.check([str(r) for r in s] == texts, 'unchanged by lookups')


def h_dts(sx, ns, lens, kinds):
    n = sx.choice('n', ns)
    made, types, pairs = [], [], []
    for i in range(n):
        a = sx.str('r%d.start' % i, lens, COMP)
        b = sx.str('r%d.end' % i, lens, COMP) if sx.bool('r%d.range' % i) else None
        ty = sx.choice('r%d.type' % i, kinds)
        if ty == 'any':
            ty = sx.str('r%d.typename' % i, lens, 'a-z')
        made.append(DtsReference(a, b, type_=ty) if b is not None else DtsReference(a, type_=ty))
        types.append(ty)
        pairs.append((a, b))
    cit = DtsCitation(name='poem')
    lv = sx.int('level', 0, 4)
    s = build(sx, DtsReferenceSet, made, {'citation': cit, 'level': lv})
    sx.check(len(s) == n, 'dts: length', got=len(s))
    sx.check([(r.start, r.end) for r in s] == pairs, 'dts: members in order')
    for i in range(n):
        sx.check((s[i].type is None) if types[i] is None else (str(s[i].type) == types[i]), 'dts: member type kept')
        sx.check(s[i].is_range() == (pairs[i][1] is not None), 'dts: range flag')
        sx.check(made[i] in s, 'dts: member found by reference')
    sx.check(s.citation is cit, 'dts: citation kept')
    sx.check(s.level == lv, 'dts: level kept')
    q = sx.str('q', lens, COMP)
    sx.check((q in s) == bool([p for p in pairs if p == (q, None)]), 'dts: membership of any text')
    qt = sx.str('q.type', lens, 'a-z')
    sx.check((DtsReference(q, type_=qt) in s) == bool([i for i in range(n) if pairs[i] == (q, None) and types[i] == qt]),
             'dts: membership of any typed reference')


R = Registry()
R.add('cts', h_cts, dict(ns=[0, 1, 2, 3], lens=1, kinds=[1, '2-2']), dict(ns=[0, 1, 2, 3], lens=1, kinds=[1, 2, '1-1', '2-2']),
      'sets of 0-3 references, one further text looked up')
R.add('dts', h_dts, dict(ns=[0, 1, 2], lens=1, kinds=[None, 'any']), dict(ns=[0, 1, 2, 3], lens=1, kinds=[None, 'any']),
      'sets of 0-2 references')
names, get, bounds = R.names, R.get, R.bounds
