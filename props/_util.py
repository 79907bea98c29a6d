"""Shared by the property modules."""


class Registry:
    def __init__(self):
        self.items = {}

    def add(self, name, fn, quick=None, thorough=None, bounds='', tiers=('quick', 'thorough')):
        self.items[name] = (fn, quick or {}, thorough if thorough is not None else (quick or {}), bounds, tiers)

    def names(self, tier):
        return [n for n, v in self.items.items() if tier in v[4]]

    def get(self, name, tier):
        fn, q, t, b, _ = self.items[name]
        return fn, (q if tier == 'quick' else t)

    def bounds(self, name, tier):
        fn, q, t, b, _ = self.items[name]
        p = q if tier == 'quick' else t
        return (b + ' ' + repr(p)).strip()


def raises(exc, fn, *a, **k):
    """The exception of type `exc` that fn raises, or None."""
    try:
        fn(*a, **k)
    except exc as e:
        return e
    return None
