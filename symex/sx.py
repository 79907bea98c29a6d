"""What a harness sees.  The same harness function runs in two modes: symbolically (inputs are SMT
variables) and concretely (inputs come from a solver model, the package is the untouched one)."""
from .core import E, SymInt, Infeasible, Violated, Abort, chars, norm, EngineError
import z3

DEFAULT = norm([(0x20, 0x7E), (0xA1, 0x17F), (0x370, 0x3FF), (0x1F00, 0x1FFF), (0x4E00, 0x4E7F)])


def alpha(spec):
    if spec is None:
        return DEFAULT
    if isinstance(spec, str):
        return chars(spec)
    return norm(spec)


class Base:
    def __init__(self):
        self._undo = []
        self._dirs = []
        self.checks = {}

    def patch(self, obj, name, value):
        old = obj.__dict__.get(name, self) if hasattr(obj, '__dict__') else getattr(obj, name)
        self._undo.append((obj, name, old))
        setattr(obj, name, value)

    def cleanup(self):
        for obj, name, old in reversed(self._undo):
            if old is self:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        self._undo = []
        for d in self._dirs:
            import shutil
            shutil.rmtree(d, ignore_errors=True)
        self._dirs = []

    def scratch(self):
        """A new directory, removed when the path ends."""
        import tempfile
        d = tempfile.mkdtemp(prefix='vp-scratch-')
        self._dirs.append(d)
        return d

    def check(self, cond, label, **info):
        self.checks[label] = self.checks.get(label, 0) + 1
        if not cond:
            raise Violated(label, info)

    def fail(self, label, **info):
        self.check(False, label, **info)

    def bool(self, label):
        return self.choice(label, [False, True])


class SymSX(Base):
    symbolic = True

    def choice(self, label, options):
        options = list(options)
        k = E.choose(len(options))
        E.inputs.append((label, 'choice', k))
        return options[k]

    def int(self, label, lo, hi):
        t = E.fresh_int('n')
        E.add(z3.And(t >= lo, t <= hi))
        v = SymInt(t)
        E.inputs.append((label, 'int', v))
        return v

    def str(self, label, length, alphabet=None):
        """Symbolic string; `length` is a number or (lo, hi)."""
        dom = alpha(alphabet)
        if isinstance(length, tuple):
            lo, hi = length
            length = lo + E.choose(hi - lo + 1)
        s = ''.join([E.new_char(dom) for _ in range(length)])
        E.inputs.append((label, 'str', s))
        return s

    def assume(self, cond):
        if not cond:
            raise Infeasible('assumption')

    def observe(self, label, value):
        E.observations.append((label, value))


class ConcreteSX(Base):
    symbolic = False

    def __init__(self, inputs):
        super().__init__()
        self.inputs = list(inputs)
        self.pos = 0
        self.observations = []

    def _next(self, label, kind):
        if self.pos >= len(self.inputs):
            raise Infeasible('replay: inputs exhausted at ' + label)
        l, k, v = self.inputs[self.pos]
        self.pos += 1
        if l != label or k != kind:
            raise Infeasible('replay: expected %s/%s, got %s/%s' % (label, kind, l, k))
        return v

    def choice(self, label, options):
        return list(options)[self._next(label, 'choice')]

    def int(self, label, lo, hi):
        return self._next(label, 'int')

    def str(self, label, length, alphabet=None):
        return self._next(label, 'str')

    def assume(self, cond):
        if not cond:
            raise Infeasible('assumption')

    def observe(self, label, value):
        from .core import E
        self.observations.append([label, E.concrete(value, model=False)])
