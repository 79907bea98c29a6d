"""Per-run environment shared by the symbolic and the concrete mode: deterministic blank nodes and
restoration of the package's module/class level state between executions."""
import functools
import sys
import types
import collections

LRU = functools._lru_cache_wrapper
CONTAINERS = (dict, list, set, collections.OrderedDict, collections.defaultdict, collections.deque)


class _Hex:
    def __init__(self, n):
        self.hex = '%032x' % n


class State:
    def __init__(self):
        self.counter = 0
        self.snap = []
        self.caches = []
        import rdflib.term
        rdflib.term.uuid4 = self._uuid
        d = rdflib.term.BNode.__new__.__defaults__
        rdflib.term.BNode.__new__.__defaults__ = d[:-1] + ('N',)

    def _uuid(self):
        self.counter += 1
        return _Hex(self.counter)

    def snapshot(self):
        self.snap = []
        self.caches = []
        seen = set()

        def container(o):
            if id(o) in seen:
                return
            seen.add(id(o))
            if isinstance(o, dict):
                self.snap.append((o, 'd', dict(o)))
                for v in o.values():
                    if isinstance(v, CONTAINERS):
                        container(v)
            elif isinstance(o, list) or isinstance(o, collections.deque):
                self.snap.append((o, 'l', list(o)))
            elif isinstance(o, set):
                self.snap.append((o, 's', set(o)))
        for name, m in list(sys.modules.items()):
            if not (name == 'MyCapytain' or name.startswith('MyCapytain.')) or m is None:
                continue
            self.snap.append((m.__dict__, 'm', dict(m.__dict__)))
            for v in list(m.__dict__.values()):
                if isinstance(v, CONTAINERS) and v is not m.__dict__.get('__builtins__'):
                    container(v)
                if isinstance(v, LRU):
                    self.caches.append(v)
                if isinstance(v, type) and v.__module__.startswith('MyCapytain') and id(v) not in seen:
                    seen.add(id(v))
                    for k, x in list(v.__dict__.items()):
                        if isinstance(x, CONTAINERS):
                            container(x)
                        y = getattr(x, '__func__', getattr(x, 'fget', x))
                        if isinstance(y, LRU):
                            self.caches.append(y)
                    self.snap.append((v, 'c', {k: x for k, x in v.__dict__.items()
                                               if not k.startswith('__') and not k.startswith('_abc')}))

    def restore(self):
        self.counter = 0
        for o, kind, val in self.snap:
            if kind == 'd':
                if len(o) != len(val) or any(o.get(k, self) is not v for k, v in val.items()):
                    o.clear()
                    o.update(val)
            elif kind == 'l':
                if list(o) != val if False else (len(o) != len(val) or any(a is not b for a, b in zip(o, val))):
                    o[:] = val
            elif kind == 's':
                if len(o) != len(val) or o != val:
                    o.clear()
                    o.update(val)
            elif kind == 'm':
                for k, v in val.items():
                    if o.get(k, self) is not v:
                        o[k] = v
                for k in list(o):
                    if k not in val:
                        del o[k]
            elif kind == 'c':
                for k, v in val.items():
                    if o.__dict__.get(k, self) is not v:
                        setattr(o, k, v)
                for k in list(o.__dict__):
                    if k not in val and not k.startswith('__') and not k.startswith('_abc'):
                        delattr(o, k)
        for c in self.caches:
            c.cache_clear()
        const = sys.modules.get('MyCapytain.common.constants')
        if const is not None:
            const.set_graph(const.bind_graph())
