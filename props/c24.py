"""C24 Pagination returns consistent windows."""
from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver
from props._util import Registry
from props.c23 import corpus

MIN, DEFAULT, MAX = 1, 10, 100


def size_of(limit):
    return limit if limit is not None and MIN <= limit <= MAX else DEFAULT


def h_window(sx, sizes, pages, total):
    limit = sx.choice('size', sizes)
    size = size_of(limit)
    page = sx.int('page', *pages) if sx.bool('page given') else None
    length = sx.int('total', 0, total)
    start, end, number, count = CtsCapitainsLocalResolver.pagination(page, limit, length)
    sx.observe('window', [start, end, number, count])
    sx.check(0 <= start and start <= end and end <= length, 'the window lies inside the list', got=[start, end, number, count])
    sx.check(count == end - start, 'number of items', got=count, want=end - start)
    sx.check(number >= 1 and start == (number - 1) * size, 'the window of the page reported', got=[start, number])
    sx.check(end == start + size or (end == length and end < start + size), 'up to the page size or the end', got=[start, end])
    sx.check(length == 0 or start < length, 'never empty but for an empty list', got=[start, end])
    asked = 1 if page is None or page < 1 else page
    if (asked - 1) * size < length:
        sx.check(number == asked, 'the page asked for', got=number, want=asked)
    else:
        sx.check(end == length, 'beyond the last page: the last page', got=[start, end, number])


def h_consecutive(sx, sizes, pages, total):
    """page p then page p + 1: the second starts where the first ends, or there is none"""
    limit = sx.choice('size', sizes)
    page = sx.int('page', 1, pages)
    length = sx.int('total', 0, total)
    a = CtsCapitainsLocalResolver.pagination(page, limit, length)
    b = CtsCapitainsLocalResolver.pagination(page + 1, limit, length)
    sx.observe('windows', [a, b])
    if a[1] == length:
        sx.check(b == a, 'after the last page comes nothing else', got=[a, b])
    else:
        sx.check(b[0] == a[1], 'no gap and no overlap', got=[a, b])
        sx.check(b[2] == a[2] + 1, 'numbered consecutively', got=[a, b])


def h_texts(sx, counts, sizes):
    n = sx.choice('texts', counts)
    res, order, texts = corpus(sx, n, [()], [1], 'a', ['edition', 'translation'])
    size = sx.choice('size', sizes)
    page = sx.int('page', -1, n + 1)
    kind = sx.choice('category', [None, 'edition'])
    want = [t.obj for t in order if kind is None or t.kind == kind]
    got, number, count = res.__getTextMetadata__(page=page, limit=size, category=kind, pagination=True)
    eff = size_of(size)
    parts = [want[i:i + eff] for i in range(0, len(want), eff)] or [[]]
    k = 1
    while k < len(parts) and k < page:
        k += 1
    sx.check([o.id for o in got] == [o.id for o in parts[k - 1]], 'the texts of the page', got=[o.id for o in got], want=[o.id for o in parts[k - 1]])
    sx.check(number == k and count == len(got), 'page and number of texts', got=[number, count], want=[k, len(got)])
    allgot, number, count = res.__getTextMetadata__(category=kind)
    sx.check([o.id for o in allgot] == [o.id for o in want] and count == len(want), 'without pagination the whole list')


R = Registry()
SIZES = [None, -1, 0, 1, 2, 3, 7, 10, 30, 40, 99, 100, 101, 1000]
R.add('window', h_window, dict(sizes=SIZES, pages=(-3, 10 ** 6), total=10 ** 6),
      dict(sizes=[None, -1] + list(range(103)), pages=(-10 ** 6, 10 ** 6), total=10 ** 6), 'arbitrary page and total')
R.add('consecutive', h_consecutive, dict(sizes=SIZES, pages=10 ** 6, total=10 ** 6),
      dict(sizes=[None, -1] + list(range(103)), pages=10 ** 6, total=10 ** 6), 'two successive pages')
R.add('texts', h_texts, dict(counts=[0, 1, 2, 3], sizes=[None, 1, 2, 3]), dict(counts=[0, 1, 2, 3, 4, 5], sizes=[None, 1, 2, 3, 4, 5]), 'pages of a corpus')
names, get, bounds = R.names, R.get, R.bounds
