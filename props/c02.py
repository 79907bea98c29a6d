"""C02 parent, depth and highest level of a passage reference."""
from MyCapytain.common.reference import CtsReference
from props._util import Registry
from props.c01 import single

KINDS = ['none', 'word', 'word+n']


def cut(parts, s):
    return '.'.join(parts[:-1]) + ('@' + s[0] if s else '')


def h_single(sx, depths, lens):
    text, parts, s = single(sx, 'a', depths, lens, KINDS)
    r = CtsReference(text)
    sx.check(r.depth == len(parts), 'single: depth', got=r.depth)
    sx.check(r.highest == text, 'single: highest is itself')
    sx.check(r.highest.list == parts, 'single: highest components')
    p = r.parent
    if len(parts) == 1:
        sx.check(p is None, 'single: top level has no parent')
        return
    sx.observe('parent', str(p))
    sx.check(p is not None, 'single: has a parent')
    sx.check(str(p) == cut(parts, s), 'single: parent text', got=str(p), want=cut(parts, s))
    sx.check(isinstance(p, CtsReference), 'single: parent is a reference')
    sx.check(not p.is_range() and p.end is None, 'single: parent is single')
    sx.check(p.start.list == parts[:-1], 'single: parent components')
    sx.check(p.depth == len(parts) - 1, 'single: parent depth')
    sx.check(p == CtsReference(cut(parts, s)), 'single: parent equals parsed parent')
    if s is None:
        sx.check(p.subreference is None, 'single: parent has no word reference')
    else:
        sx.check(tuple(p.subreference) == (s[1], s[2]), 'single: parent keeps word reference')
    sx.check(str(r) == text, 'single: unchanged by parent')


def h_range(sx, depths, lens, kinds):
    ta, pa, sa = single(sx, 'a', depths, lens, kinds)
    tb, pb, sb = single(sx, 'b', depths, lens, kinds)
    r = CtsReference(ta + '-' + tb)
    low = ta if len(pa) <= len(pb) else tb
    sx.check(r.highest == low, 'range: highest is the shallower bound', got=str(r.highest), want=low)
    sx.check(r.depth == min(len(pa), len(pb)), 'range: depth', got=r.depth)
    p = r.parent
    sx.observe('parent', None if p is None else str(p))
    if len(pa) == 1 or len(pb) == 1:
        sx.check(p is None, 'range: a top level bound has no parent')
        return
    sx.check(isinstance(p, CtsReference), 'range: parent is a reference')
    if pa[:-1] == pb[:-1] and sa is None and sb is None:
        sx.check(str(p) == '.'.join(pa[:-1]), 'range: common parent text', got=str(p))
        sx.check(not p.is_range(), 'range: common parent is single')
        sx.check(p.start.list == pa[:-1], 'range: common parent components')
    else:
        want = cut(pa, sa) + '-' + cut(pb, sb)
        sx.check(str(p) == want, 'range: parent text', got=str(p), want=want)
        sx.check(p.is_range(), 'range: parent is a range')
        sx.check(p.start.list == pa[:-1] and p.end.list == pb[:-1], 'range: parent components')
        sx.check(p.start == cut(pa, sa) and p.end == cut(pb, sb), 'range: parent bounds')
    sx.check(str(r) == ta + '-' + tb, 'range: unchanged by parent')


R = Registry()
R.add('single', h_single, dict(depths=[1, 2, 3], lens=(1, 2)), dict(depths=[1, 2, 3, 4], lens=(1, 3)),
      'one passage, 1-3 components of 1-2 characters, optional word reference')
R.add('range', h_range, dict(depths=[1, 2, 3], lens=(1, 1), kinds=['none', 'word+n']),
      dict(depths=[1, 2, 3], lens=(1, 2), kinds=['none', 'word+n']),
      'ranges of two passages, same bounds per end')
R.add('lengths', h_range, dict(depths=[2, 3], lens=(1, 2), kinds=['none']), dict(depths=[2, 3, 4], lens=(1, 3), kinds=['none']),
      'ranges whose components have different lengths')
names, get, bounds = R.names, R.get, R.bounds
ASSUMPTIONS = ['Components are built from letters, digits and underscore (no separator characters).']
