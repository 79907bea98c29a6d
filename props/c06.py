"""C06 Citation scope and xpath are a faithful split of the refsDecl."""
from MyCapytain.common.reference import Citation
from MyCapytain.resources.collections.cts import XmlCtsCitation
from MyCapytain.common.utils.xml import xmlparser
from props._util import Registry

NAME = 'a-zA-Z'
MID = 'a-zA-Z0-9_.\\-'
VALUE = 'a-zA-Z0-9_ .,:;\\-+!()*=<>|{}\u00e9'
SEPS = ['/', '//']


def steps(sx, tag, ns, lens, quotes, preds):
    """[(step text with a '%s' place-holder or without)] , the last one always has one"""
    n = sx.choice(tag + '.steps', ns)
    out = []
    q = sx.choice(tag + '.quote', quotes)
    for i in range(n):
        t = sx.choice('%s.%d.sep' % (tag, i), SEPS) + 'tei:' + sx.str('%s.%d.name' % (tag, i), 1, NAME) + \
            sx.str('%s.%d.rest' % (tag, i), lens, MID)
        last = i == n - 1
        kind = sx.choice('%s.%d.predicates' % (tag, i), [p for p in preds if not last or 'n' in p])
        for k in kind.split('+'):
            if k == 'type':
                t = t + '[@type=' + q + sx.str('%s.%d.type' % (tag, i), lens, VALUE) + q + ']'
            elif k == 'n':
                t = t + '[@n=' + q + '?' + q + ']'
        out.append(t)
    return out


def number(pattern):
    i = 1
    out = ''
    for part in pattern.split('?'):
        out = out + part + '$' + str(i)
        i += 1
    return out[:-len('$' + str(i - 1))]


def joined(parts):
    return ''.join(parts)


def agree(sx, c, scope, xpath, tag):
    sx.check(c.scope == scope, tag + ': scope', got=c.scope, want=scope)
    sx.check(c.xpath == xpath, tag + ': xpath', got=c.xpath, want=xpath)
    sx.check(c.refsDecl == number(scope + xpath), tag + ': refsDecl', got=c.refsDecl, want=number(scope + xpath))
    sx.check(c.is_set(), tag + ': set')


def h_split(sx, ns, lens, quotes, preds):
    st = steps(sx, 'p', ns, lens, quotes, preds)
    scope, xpath = joined(st[:-1]), st[-1]
    pattern = number(scope + xpath)
    how = sx.choice('from', ['refsDecl', 'xml', 'assigned'])
    if how == 'xml':
        el = xmlparser('<tei:cRefPattern xmlns:tei="http://www.tei-c.org/ns/1.0" n="x" replacementPattern="y"/>',
                       objectify=False)
        el.set('replacementPattern', '#xpath(' + pattern + ')')
        c = Citation.ingest([el], xpath='.')
    elif how == 'assigned':
        c = Citation(name='x')
        sx.check(not c.is_set(), 'not set before')
        c.refsDecl = pattern
    else:
        c = Citation(name='x', refsDecl=pattern)
    sx.observe('scope', c.scope)
    agree(sx, c, scope, xpath, 'split')
    again = Citation(name='x', scope=c.scope, xpath=c.xpath)
    agree(sx, again, scope, xpath, 'rebuilt from its own scope and xpath')


def h_build(sx, ns, lens, quotes, preds):
    st = steps(sx, 'p', ns, lens, quotes, preds)
    scope, xpath = joined(st[:-1]), st[-1]
    cls = sx.choice('class', [Citation, XmlCtsCitation])
    c = cls(name='x', scope=scope, xpath=xpath)
    sx.observe('refsDecl', c.refsDecl)
    agree(sx, c, scope, xpath, 'built')
    other = cls(name='y', scope=scope, xpath=xpath)
    first = scope, xpath
    for i, f in enumerate(sx.choice('edits', [['scope'], ['xpath'], ['xpath', 'scope'], ['no scope'], ['no scope', 'scope']])):
        if f == 'no scope':
            scope = c.scope = ''
            agree(sx, c, scope, xpath, 'after removing the scope')
            continue
        new = steps(sx, 'e%d' % i, [1], lens, quotes, ['n'])
        if f == 'scope':
            scope = joined(new)
            c.scope = scope
        else:
            xpath = joined(new)
            c.xpath = xpath
        agree(sx, c, scope, xpath, 'after setting ' + f)
    agree(sx, other, first[0], first[1], 'another citation')


def h_deep(sx, levels):
    """More than nine place-holders."""
    n = sx.choice('levels', levels)
    st = ['/tei:div' + sx.str('%d.name' % i, 1, MID) + "[@n='?']" for i in range(n)]
    scope, xpath = joined(st[:-1]), st[-1]
    agree(sx, Citation(name='x', refsDecl=number(scope + xpath)), scope, xpath, 'deep split')
    c = Citation(name='x', scope=scope, xpath=xpath)
    agree(sx, c, scope, xpath, 'deep built')


R = Registry()
R.add('deep', h_deep, dict(levels=[9, 10, 12]), dict(levels=list(range(5, 22))), 'many levels')
P = ['none', 'type', 'n', 'type+n']
R.add('split', h_split, dict(ns=[1, 2, 3], lens=1, quotes=["'", '"'], preds=['type', 'n', 'type+n']),
      dict(ns=[1, 2, 3, 4], lens=1, quotes=["'", '"'], preds=P),
      'patterns of 1-3 steps, one character per free part')
R.add('build', h_build, dict(ns=[1, 2], lens=1, quotes=["'"], preds=['none', 'n', 'type+n']),
      dict(ns=[1, 2, 3], lens=1, quotes=["'", '"'], preds=['none', 'n', 'type+n']),
      'scope of 0-1 steps and xpath of one step, up to two edits')
names, get, bounds = R.names, R.get, R.bounds
ASSUMPTIONS = ['Patterns are absolute paths of steps separated by / or //, place-holders appear once each in order, '
               'attribute tests hold no slash, question mark or dollar.']
