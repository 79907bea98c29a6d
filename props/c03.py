"""C03 CTS URNs parse into their components and print back."""
from MyCapytain.common.reference import URN, CtsReference
from props._util import Registry, raises

COMP = 'a-zA-Z0-9_\\-\u00e9'
PASS = 'a-zA-Z0-9_\u03b1-\u03c9'
LEVELS = ['NAMESPACE', 'TEXTGROUP', 'WORK', 'VERSION', 'PASSAGE', 'PASSAGE_START', 'PASSAGE_END', 'NO_PASSAGE', 'COMPLETE']
SHAPES = ['ns', 'tg', 'work', 'version', 'work+ref', 'version+ref', 'work+range', 'version+range']


def parts_of(sx, tag, shape, lens, plens, kinds=(1, 2, 'sub')):
    """components of a well formed URN; absent ones are None"""
    base, _, ref = shape.partition('+')
    n = ['ns', 'tg', 'work', 'version'].index(base)
    d = {'urn_namespace': sx.str(tag + '.urn_ns', lens, COMP), 'namespace': sx.str(tag + '.ns', lens, COMP)}
    for i, k in enumerate(['textgroup', 'work', 'version']):
        d[k] = sx.str('%s.%s' % (tag, k), lens, COMP) if n > i else None
    d['start'] = d['end'] = None
    if ref:
        d['start'] = passage(sx, tag + '.start', plens, kinds)
        if ref == 'range':
            d['end'] = passage(sx, tag + '.end', plens, kinds)
    return d


def passage(sx, tag, plens, kinds=(1, 2, 'sub')):
    k = sx.choice(tag + '.kind', kinds)
    t = sx.str(tag + '.0', plens, PASS)
    if k != 1:
        t = t + '.' + sx.str(tag + '.1', plens, PASS)
    if k == 'sub':
        t = t + '@' + sx.str(tag + '.w', plens, PASS) + '[' + sx.str(tag + '.n', 1, '0-9') + ']'
    return t


def ref_text(d):
    if d['start'] is None:
        return None
    return d['start'] + ('-' + d['end'] if d['end'] is not None else '')


def texts(d):
    """level -> expected prefix (None: refused)"""
    ns = 'urn:' + d['urn_namespace'] + ':' + d['namespace']
    tg = ns + ':' + d['textgroup'] if d['textgroup'] is not None else None
    wk = tg + '.' + d['work'] if d['work'] is not None else None
    vs = wk + '.' + d['version'] if d['version'] is not None else None
    full = vs or wk or tg or ns
    out = {'NAMESPACE': ns, 'TEXTGROUP': tg, 'WORK': wk, 'VERSION': vs, 'NO_PASSAGE': vs or wk}
    r = ref_text(d)
    out['PASSAGE'] = full + ':' + r if r is not None else None
    out['PASSAGE_START'] = full + ':' + d['start'] if r is not None else None
    out['PASSAGE_END'] = full + ':' + d['end'] if d['end'] is not None else None
    out['COMPLETE'] = out['PASSAGE'] or full
    return out


def length(d):
    return sum(1 for k in ('urn_namespace', 'namespace', 'textgroup', 'work', 'version') if d[k] is not None)


def check_views(sx, u, d, tag):
    want = texts(d)
    for k in ('urn_namespace', 'namespace', 'textgroup', 'work', 'version'):
        sx.check(getattr(u, k) == d[k], '%s: %s' % (tag, k), got=getattr(u, k), want=d[k])
    r = ref_text(d)
    if r is None:
        sx.check(u.reference is None, tag + ': no reference')
    else:
        sx.check(isinstance(u.reference, CtsReference), tag + ': reference type')
        sx.check(str(u.reference) == r, tag + ': reference', got=str(u.reference), want=r)
        sx.check(u.reference.start == d['start'], tag + ': reference start')
        if d['end'] is None:
            sx.check(u.reference.end is None, tag + ': reference has no end')
        else:
            sx.check(u.reference.end == d['end'], tag + ': reference end')
    sx.check(str(u) == want['COMPLETE'], tag + ': text', got=str(u), want=want['COMPLETE'])
    for lv in LEVELS:
        if want[lv] is None:
            sx.check(raises(KeyError, u.upTo, getattr(URN, lv)) is not None, '%s: upTo(%s) refused' % (tag, lv))
        else:
            got = u.upTo(getattr(URN, lv))
            sx.check(got == want[lv], '%s: upTo(%s)' % (tag, lv), got=got, want=want[lv])
    sx.check(raises(KeyError, u.upTo, 7) is not None, tag + ': upTo of an unknown level refused')
    sx.check(len(u) == length(d), tag + ': length', got=len(u), want=length(d))


def h_parse(sx, shapes, lens, plens):
    d = parts_of(sx, 'u', sx.choice('shape', shapes), lens, plens)
    text = texts(d)['COMPLETE']
    frag = sx.choice('fragment', [None, '', 'f'])
    given = text
    if frag is not None:
        given = text + '#' + (sx.str('frag', (1, 2), 'a-z#:.@') if frag else '')
    u = URN(given)
    sx.observe('str', str(u))
    check_views(sx, u, d, 'parsed')
    sx.check(u == URN(text), 'equal to the URN of its text')


def h_compare(sx, shapes, lens):
    a = parts_of(sx, 'a', sx.choice('a.shape', shapes), lens, 1)
    b = parts_of(sx, 'b', sx.choice('b.shape', shapes), lens, 1)
    ta, tb = texts(a)['COMPLETE'], texts(b)['COMPLETE']
    ua, ub = URN(ta), URN(tb)
    same = ta == tb
    sx.check((ua == ub) == same, 'equality is equality of text')
    sx.check((ua != ub) == (not same), 'inequality is its opposite')
    sx.check((ua > ub) == (length(a) > length(b)), 'greater compares lengths')
    sx.check((ua < ub) == (length(a) < length(b)), 'less compares lengths')
    sx.check(not (ua == ta), 'a URN is not a plain text')


def h_invalid(sx, n):
    t = sx.str('text', n, 'a-z0-9.\\-@#')
    k = sx.choice('colons', [0, 1])
    if k:
        t = t + ':' + sx.str('more', n, 'a-z0-9.\\-@#')
    sx.check(raises(ValueError, URN, t) is not None, 'too few components: refused')


R = Registry()
R.add('parse', h_parse, dict(shapes=SHAPES, lens=(1, 1), plens=(1, 1)), dict(shapes=SHAPES, lens=(1, 2), plens=(1, 2)),
      'one URN of every shape, optional fragment')
R.add('compare', h_compare, dict(shapes=['ns', 'tg', 'work', 'version', 'work+ref', 'version+range'], lens=1),
      dict(shapes=SHAPES, lens=(1, 2)), 'two URNs')
R.add('invalid', h_invalid, dict(n=(0, 3)), dict(n=(0, 6)), 'texts with fewer than two colons')
names, get, bounds = R.names, R.get, R.bounds
ASSUMPTIONS = ['Components hold letters, digits, "_" and "-"; a version needs a work, a work a textgroup, a passage a work.']
