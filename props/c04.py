"""C04 Editing a URN keeps every view of it consistent."""
from MyCapytain.common.reference import URN, CtsReference
from props._util import Registry
from props.c03 import COMP, PASS, SHAPES, parts_of, texts, check_views, passage, length, ref_text

FIELDS = ['urn_namespace', 'namespace', 'textgroup', 'work', 'version', 'reference']


def well_formed(d):
    if d['version'] is not None and d['work'] is None:
        return False
    if d['work'] is not None and d['textgroup'] is None:
        return False
    if d['start'] is not None and d['work'] is None:
        return False
    return True


def h_edit(sx, shapes, steps, lens, fields, kinds):
    d = parts_of(sx, 'u', sx.choice('shape', shapes), lens, lens, kinds)
    u = URN(texts(d)['COMPLETE'])
    n = sx.choice('steps', steps)
    for i in range(n):
        if well_formed(d) and sx.bool('%d.read' % i):
            sx.check(str(u) == texts(d)['COMPLETE'], 'read between assignments', got=str(u))
            len(u)
            u.upTo(URN.NAMESPACE)
        f = sx.choice('%d.field' % i, fields)
        if f == 'reference':
            how = sx.choice('%d.as' % i, ['none', 'text', 'object', 'range'])
            if how == 'none':
                d['start'] = d['end'] = None
                u.reference = None
            else:
                d['start'] = passage(sx, '%d.start' % i, lens, kinds)
                d['end'] = passage(sx, '%d.end' % i, lens, kinds) if how == 'range' else None
                v = ref_text(d)
                u.reference = CtsReference(v) if how == 'object' else v
        else:
            if f in ('textgroup', 'work', 'version') and sx.bool('%d.clear' % i):
                v = None
            else:
                v = sx.str('%d.value' % i, lens, COMP)
            d[f] = v
            setattr(u, f, v)
    sx.assume(well_formed(d))
    want = texts(d)['COMPLETE']
    sx.observe('str', str(u))
    check_views(sx, u, d, 'edited')
    fresh = URN(want)
    sx.check(u == fresh and fresh == u, 'equal to a URN parsed from the new components')
    sx.check(not (u > fresh) and not (u < fresh), 'compares like a URN parsed from the new components')
    sx.check(u.upTo(URN.COMPLETE) == str(fresh), 'complete text')


def h_two(sx, shapes, lens, fields, kinds):
    """URNs of one text: editing one leaves the others, and those parsed later, alone"""
    d = parts_of(sx, 'u', sx.choice('shape', shapes), lens, lens, kinds)
    text = texts(d)['COMPLETE']
    a, b = URN(text), URN(text)
    e = dict(d)
    f = sx.choice('field', fields)
    if f == 'reference':
        e['start'], e['end'] = passage(sx, 'start', lens, kinds), None
        a.reference = ref_text(e)
    else:
        e[f] = sx.str('value', lens, COMP)
        setattr(a, f, e[f])
    sx.assume(well_formed(e))
    sx.observe('str', str(a))
    check_views(sx, a, e, 'edited')
    check_views(sx, b, d, 'the other one')
    check_views(sx, URN(text), d, 'parsed later')
    later = URN(texts(e)['COMPLETE'])
    check_views(sx, later, e, 'parsed from the new text')
    b.namespace = 'other'
    check_views(sx, a, e, 'edited before')
    check_views(sx, later, e, 'parsed before')


R = Registry()
R.add('two', h_two, dict(shapes=['tg', 'work', 'version+ref', 'version+range'], lens=1, fields=FIELDS, kinds=['sub']),
      dict(shapes=SHAPES, lens=(1, 2), fields=FIELDS, kinds=[1, 'sub']), 'several URNs of one text')
R.add('edit', h_edit, dict(shapes=['ns', 'tg', 'work', 'version+ref', 'version+range'], steps=[1, 2], lens=1, fields=FIELDS, kinds=['sub']),
      dict(shapes=SHAPES, steps=[1, 2], lens=(1, 2), fields=FIELDS, kinds=[1, 2, 'sub']),
      'a URN of any shape, then assignments to its components with optional reads between')
R.add('longer', h_edit, None, dict(shapes=['tg', 'version+ref', 'version+range'], steps=[3, 4], lens=1,
                                   fields=['namespace', 'work', 'version', 'reference'], kinds=[1]),
      'longer sequences over fewer shapes', tiers=('thorough',))
names, get, bounds = R.names, R.get, R.bounds
ASSUMPTIONS = ['Only final states that are a well formed URN are judged (version needs work, work needs textgroup, '
               'passage needs work).']
