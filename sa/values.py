"""Abstract values of the analyser.

Immutable constants of the analysed program (None, bool, numbers, str, bytes,
tuples, slices, datetime constants) are represented by the equal Python
constant (constant propagation).  Everything else is one of the classes below.
No object of the analysed package is ever created or called.
"""
import itertools

_uid = itertools.count(1)


def key_of(v):
    """Structural key of an abstract value (hashable)."""
    if isinstance(v, Sym):
        return v.key
    if isinstance(v, Obj):
        return ('obj', v.label)
    if isinstance(v, tuple):
        return ('tuple',) + tuple(key_of(x) for x in v)
    if isinstance(v, AList):
        return ('list',) + tuple(key_of(x) for x in v.items)
    if isinstance(v, ADict):
        return ('dict',) + tuple((key_of(k), key_of(x)) for k, x in v.d.items())
    if isinstance(v, ASet):
        return ('set',) + tuple(key_of(x) for x in v.items)
    if isinstance(v, (Func, ClassVal, Builtin, ExtRef, PyClass, ModuleVal)):
        return ('ref', v.name)
    if isinstance(v, Bound):
        return ('bound', key_of(v.func), key_of(v.self))
    if isinstance(v, Partial):
        return ('partial', key_of(v.func))
    if isinstance(v, (Lin, DT)):
        return v.key()
    if isinstance(v, Choice):
        return ('choice', v.name)
    try:
        hash(v)
        return ('c', type(v).__name__, v)
    except TypeError:
        return ('?', id(v))


class Sym:
    """Uninterpreted value, identified structurally."""
    __slots__ = ('key', 'typ', 'meta')

    def __init__(self, key, typ=None, meta=None):
        self.key = key if isinstance(key, tuple) else ('s', key)
        self.typ = typ
        self.meta = meta

    def __eq__(self, other):
        return isinstance(other, Sym) and other.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return 'Sym(%s)' % pretty(self.key)


class Choice:
    """A value ranging over a finite domain; resolved when first inspected."""
    __slots__ = ('name', 'options')

    def __init__(self, name, options):
        self.name = name
        self.options = list(options)

    def __repr__(self):
        return 'Choice(%s)' % (self.name,)


class Free(Choice):
    """A value the property does not depend on: the first option, or (on at most I.free_budget reads of distinct ones per path) any other."""
    __slots__ = ()


class Lin:
    """Linear form  sum(c_i * sym_i) + const  over named symbols."""
    __slots__ = ('co', 'const')

    def __init__(self, co, const=0):
        self.co = {k: c for k, c in co.items() if c != 0}
        self.const = const

    @staticmethod
    def sym(name):
        return Lin({name: 1})

    def add(self, o, s=1):
        if isinstance(o, Lin):
            co = dict(self.co)
            for k, c in o.co.items():
                co[k] = co.get(k, 0) + s * c
            return Lin(co, self.const + s * o.const)
        return Lin(self.co, self.const + s * o)

    def scale(self, n):
        return Lin({k: c * n for k, c in self.co.items()}, self.const * n)

    def key(self):
        return ('lin',) + tuple(sorted(self.co.items(), key=repr)) + (self.const,)

    def __eq__(self, o):
        return isinstance(o, Lin) and o.co == self.co and o.const == self.const

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        s = ' '.join('%+d*%s' % (c, k) if abs(c) != 1 else ('+' if c > 0 else '-') + str(k)
                     for k, c in sorted(self.co.items(), key=repr))
        if self.const:
            s += ' %+r' % (self.const,)
        return 'Lin(%s)' % s


class TD(Lin):
    """Abstract timedelta: a linear form of seconds."""
    __slots__ = ()

    def add(self, o, s=1):
        r = Lin.add(self, o, s)
        return TD(r.co, r.const)

    def scale(self, n):
        r = Lin.scale(self, n)
        return TD(r.co, r.const)


class DT:
    """Abstract datetime: a symbolic instant and whether (and in which zone) it is timezone-aware."""
    __slots__ = ('lin', 'tz')

    def __init__(self, lin, tz=None):
        self.lin, self.tz = lin, tz

    def key(self):
        return ('dt', self.lin.key(), repr(self.tz))

    def __eq__(self, o):
        return isinstance(o, DT) and o.key() == self.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return 'DT(%r%s)' % (self.lin, ', aware' if self.tz is not None else '')


class Obj:
    """Abstract heap object."""

    def __init__(self, cls, fields=None, label=None, lazy=False):
        self.cls = cls
        self.fields = fields if fields is not None else {}
        self.uid = next(_uid)
        self.label = label if label is not None else '%s#%d' % (getattr(cls, 'name', cls), self.uid)
        self.lazy = lazy
        self.data = {}      # analyser-side data (not visible to the program)

    def __repr__(self):
        return '<%s>' % self.label


class AList:
    maxlen = None            # of a bounded deque

    def __init__(self, items=None, label=None):
        self.items = list(items) if items is not None else []
        self.label = label
        self.uid = next(_uid)

    def __repr__(self):
        return 'AList%r' % (self.items,)


class ADict:
    factory = None           # default_factory of a defaultdict

    def __init__(self, d=None, label=None):
        self.d = d if d is not None else {}
        self.label = label
        self.uid = next(_uid)

    def __repr__(self):
        return 'ADict%r' % (self.d,)


class ASet:
    def __init__(self, items=None, frozen=False):
        self.items = list(items) if items is not None else []
        self.frozen = frozen
        self.uid = next(_uid)

    def __repr__(self):
        return 'ASet%r' % (self.items,)


class AIter:
    """Iterator/generator (wraps an analyser-side iterator)."""

    def __init__(self, it):
        self.it = it


class ClassVal:
    def __init__(self, name, bases, ns, module=None, node=None, ext=False, path=None):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.node = node
        self.ext = ext
        self.path = path or name
        self.annotations = ns.pop('__annotations__', {}) if isinstance(ns, dict) else {}
        self.dataclass = None
        self.enum = None
        self.pyd = None
        self.mro = None

    def __repr__(self):
        return '<class %s>' % self.name


class PyClass:
    """A builtin (or modelled stdlib) Python type, known by its Python type."""

    def __init__(self, t, name=None):
        self.t = t
        self.name = name or t.__name__
        self.path = self.name

    def __eq__(self, o):
        return isinstance(o, PyClass) and o.t is self.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return '<pyclass %s>' % self.name


class Func:
    def __init__(self, node, module, closure, name, qualname, cls_name=None):
        self.node = node
        self.module = module
        self.closure = closure
        self.name = name
        self.qualname = qualname
        self.cls_name = cls_name
        self.cls = None          # defining class (for super())
        self.defaults = []
        self.kw_defaults = {}
        self.attrs = {}
        self.is_gen = None

    def __repr__(self):
        return '<func %s>' % self.qualname


class Bound:
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __repr__(self):
        return '<bound %r of %r>' % (self.func, self.self)


class Builtin:
    """Native model: fn(I, args, kwargs)."""

    def __init__(self, name, fn, params=None):
        self.name = name
        self.fn = fn
        self.params = params     # optional list of (name, default) for inspect.signature
        self.attrs = {}

    def __repr__(self):
        return '<builtin %s>' % self.name


class Partial:
    def __init__(self, func, args, kwargs):
        self.func = func
        self.args = args
        self.kwargs = kwargs


class ExtRef:
    """Reference to an external (unmodelled) entity by dotted path."""

    def __init__(self, path):
        self.path = path
        self.name = path

    def __eq__(self, o):
        return isinstance(o, ExtRef) and o.path == self.path

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return '<ext %s>' % self.path


class ModuleVal:
    def __init__(self, name, path, tree, src):
        self.name = name
        self.path = path
        self.tree = tree
        self.src = src
        self.ns = {}
        self.state = 0           # 0 new, 1 initialising, 2 done

    def __repr__(self):
        return '<module %s>' % self.name


class PropVal:
    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class CachedProp:
    """functools.cached_property: computed once per object, stored among its attributes."""

    def __init__(self, f):
        self.f = f
        self.name = getattr(f, 'name', '?')


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class ValidatorVal:
    def __init__(self, f, fields, pre=False, always=False, root=False):
        self.f = f
        self.fields = fields
        self.pre = pre
        self.always = always
        self.root = root


class FieldInfo:
    def __init__(self, default=..., factory=None, private=False):
        self.default = default
        self.factory = factory
        self.private = private


class SuperVal:
    def __init__(self, cls, self_):
        self.cls = cls
        self.self = self_


class Coro:
    """Coroutine object: call of an async function that has not started."""

    def __init__(self, func, args, kwargs):
        self.func = func
        self.args = args
        self.kwargs = kwargs
        self.done = False


class NotImpl:
    pass


NOTIMPL = NotImpl()


def pretty(k):
    if isinstance(k, tuple):
        if len(k) == 2 and k[0] == 's':
            return str(k[1])
        if len(k) == 3 and k[0] == 'c':
            return repr(k[2])
        if len(k) == 2 and k[0] in ('obj', 'ref', 'choice'):
            return str(k[1])
        if k and k[0] == 'attr':
            return '%s.%s' % (pretty(k[1]), k[2])
        return '(' + ' '.join(pretty(x) for x in k) + ')'
    return str(k)
