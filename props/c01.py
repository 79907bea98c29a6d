"""C01 passage references: parsing, structure and round trip."""
import copy
import pickle
from MyCapytain.common.reference import CtsReference
from MyCapytain.common.reference._capitains_cts import CtsSinglePassageId, CtsWordReference
from props._util import Registry

COMP = 'a-zA-Z0-9_\u00e9\u03b1-\u03c9'
WORD = 'a-zA-Z0-9_\u00e9\u03b1-\u03c9\u1f00-\u1f07\u0301. \''


def passage(sx, tag, depth, lens):
    parts = [sx.str('%s.%d' % (tag, i), lens, COMP) for i in range(depth)]
    return parts


# how many digits the counter of a word has
DIGITS = [(1, 2), 5]


def sub(sx, tag, kinds):
    """(text after '@', word, counter) or None"""
    kind = sx.choice(tag + '.sub', kinds)
    if kind == 'none':
        return None
    w = sx.str(tag + '.word', (1, 3), WORD)
    if kind == 'word':
        return w, w, 0
    n = sx.str(tag + '.n', sx.choice(tag + '.digits', DIGITS), '0-9')
    return w + '[' + n + ']', w, int(n)


def single(sx, tag, depths, lens, kinds):
    d = sx.choice(tag + '.depth', depths)
    parts = passage(sx, tag, d, lens)
    s = sub(sx, tag, kinds)
    text = '.'.join(parts)
    if s:
        text = text + '@' + s[0]
    return text, parts, s


def check_id(sx, pid, text, parts, s, tag):
    sx.check(str(pid) == text, tag + ' keeps its text', got=str(pid), want=text)
    sx.check(pid == text, tag + ' equals its text')
    sx.check(pid.list == parts, tag + ' components', got=pid.list, want=parts)
    sx.check(list(iter(pid)) == parts, tag + ' iterates over components')
    sx.check(pid.depth == len(parts), tag + ' depth')
    sx.check(len(pid) == len(parts), tag + ' length')
    if s is None:
        sx.check(pid.subreference is None, tag + ' has no word reference')
    else:
        sr = pid.subreference
        sx.check(sr is not None, tag + ' has a word reference')
        sx.check(sr.word == s[1], tag + ' word', got=sr.word, want=s[1])
        sx.check(sr.counter == s[2], tag + ' word counter', got=sr.counter, want=s[2])
        sx.check(sr.tuple() == (s[1], s[2]), tag + ' word tuple')
        sx.check(list(sr) == [s[1], s[2]], tag + ' word iteration')
        sx.check(str(sr) == '@' + s[0], tag + ' word text')


KINDS = ['none', 'word', 'word+n']


def h_single(sx, depths, lens):
    text, parts, s = single(sx, 'a', depths, lens, KINDS)
    r = CtsReference(text)
    sx.observe('str', str(r))
    sx.check(str(r) == text, 'single: text round trip', got=str(r), want=text)
    sx.check(r.end is None, 'single: no end')
    sx.check(r.is_range() is False or not r.is_range(), 'single: not a range')
    check_id(sx, r.start, text, parts, s, 'start')
    sx.check(r.depth == len(parts), 'single: depth')
    if s is None:
        sx.check(r.subreference is None, 'single: no subreference')
    else:
        sx.check(tuple(r.subreference) == (s[1], s[2]), 'single: subreference')
    again = CtsReference(str(r))
    sx.check(again == r, 'single: parse of own text is equal')
    for how, c in (('copy', copy.copy(r)), ('deepcopy', copy.deepcopy(r)), ('pickle', pickle.loads(pickle.dumps(r)))):
        sx.check(c == r, 'single: %s is equal' % how)
        sx.check(str(c) == text, 'single: %s keeps text' % how)
        sx.check(c.start.list == parts and c.end is None, 'single: %s keeps structure' % how)
    pair = CtsReference((text, None))
    sx.check(pair == r and str(pair) == text, 'single: built from (start, None)')


def h_range(sx, depths, lens, kinds):
    ta, pa, sa = single(sx, 'a', depths, lens, kinds)
    tb, pb, sb = single(sx, 'b', depths, lens, kinds)
    text = ta + '-' + tb
    r = CtsReference(text)
    sx.observe('str', str(r))
    sx.check(str(r) == text, 'range: text round trip', got=str(r), want=text)
    sx.check(r.is_range(), 'range: is a range')
    check_id(sx, r.start, ta, pa, sa, 'start')
    check_id(sx, r.end, tb, pb, sb, 'end')
    sx.check(r.subreference is None, 'range: no direct subreference')
    two = CtsReference(ta, tb)
    tup = CtsReference((ta, tb))
    for how, c in (('two arguments', two), ('pair', tup), ('copy', copy.copy(r)), ('deepcopy', copy.deepcopy(r)),
                   ('pickle', pickle.loads(pickle.dumps(r)))):
        sx.check(c == r, 'range: %s equal' % how)
        sx.check(str(c) == text, 'range: %s text' % how, got=str(c), want=text)
        sx.check(c.is_range() and c.start == ta and c.end == tb, 'range: %s bounds' % how)
        sx.check(hash(c) == hash(r), 'range: %s hash' % how)
    sx.check(r.start == ta and r.end == tb, 'range: bounds text')


def h_eq(sx, lens):
    """Equality is equality of text, across singles and ranges."""
    a = '.'.join(passage(sx, 'a', sx.choice('a.depth', [1, 2]), lens))
    b = '.'.join(passage(sx, 'b', sx.choice('b.depth', [1, 2]), lens))
    ra, rb = CtsReference(a), CtsReference(b)
    sx.check((ra == rb) == (a == b), 'equality follows text')
    rng = CtsReference(a + '-' + b)
    sx.check(not (rng == ra), 'a range is not its start')
    sx.check(not (rng == rb), 'a range is not its end')
    sx.check((CtsReference(b + '-' + a) == rng) == (a == b), 'ranges are ordered pairs')


R = Registry()
R.add('single', h_single, dict(depths=[1, 2, 3], lens=(1, 2)), dict(depths=[1, 2, 3, 4], lens=(1, 3)),
      'one passage, 1-3 components of 1-2 characters, optional word reference')
R.add('range', h_range, dict(depths=[1, 2], lens=(1, 2), kinds=['none', 'word+n']),
      dict(depths=[1, 2, 3], lens=(1, 2), kinds=KINDS),
      'ranges of two passages, same bounds per end')
R.add('equality', h_eq, dict(lens=(1, 2)), dict(lens=(1, 3)), 'two references')
names, get, bounds = R.names, R.get, R.bounds
ASSUMPTIONS = ['Components are built from letters, digits and underscore (no separator characters).']
