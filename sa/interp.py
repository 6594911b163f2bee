"""Path-sensitive abstract interpreter over the syntax trees of /repo/rocketry.

The analysed package is parsed, never imported or executed.  Values are the
abstract values of values.py: constants, uninterpreted symbols, finite-domain
choices, linear forms and a k-limited heap.  A branch on an unknown predicate
splits the path; the valuation of the predicates seen so far is kept, so a
predicate has one truth value along a path.  Interprocedural: calls to package
functions are followed (inlined), external calls are either modelled (stdlib.py
and the rule's own environment model) or uninterpreted.
"""
import ast
import threading
import builtins as _bi
import functools
import os
import pathlib

from .values import *

BUILTIN_EXC = {n: getattr(_bi, n) for n in dir(_bi)
               if isinstance(getattr(_bi, n), type) and issubclass(getattr(_bi, n), BaseException)}


class PathAbort(Exception):
    """The path is infeasible or outside the bound of the abstraction."""


class Unsupported(Exception):
    """A construct the analyser has no transfer function for."""


class AnalysisError(Exception):
    """The analysis cannot be set up (vanished anchor and the like)."""


class AbsRaise(Exception):
    def __init__(self, exc, loc=None):
        self.exc = exc
        self.loc = loc


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class TunnelSig(Exception):
    """Carries return/break/continue of a with-body through the body of a @contextmanager generator."""
    def __init__(self, sig):
        self.sig = sig


class Event:
    __slots__ = ('kind', 'd', 'loc')

    def __init__(self, kind, d, loc):
        self.kind = kind
        self.d = d
        self.loc = loc

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def get(self, n, default=None):
        return self.d.get(n, default)

    def __repr__(self):
        return '%s(%s)@%s' % (self.kind, ', '.join('%s=%s' % (k, short(v)) for k, v in self.d.items()), self.loc)


def short(v):
    s = repr(v)
    return s if len(s) < 90 else s[:87] + '...'


class _Closed(BaseException):
    pass


class _Channel:
    """Evaluation of the body of a generator, alternating with its consumer (one of the two runs at a time)."""

    def __init__(self, I, fn, fr):
        self.I, self.fn, self.fr = I, fn, fr
        self.value, self.error = _MISSING, None
        self.done = self.closed = False
        self.sent = None
        self.ret = None
        self.thread = None
        self.frames, self.excs, self.depth = [], [], 0

    def resume(self):
        if self.done:
            return _MISSING
        I = self.I
        saved = I.frames, I.exc_stack, I.depth
        self.base = len(I.frames), len(I.exc_stack), I.depth
        I.frames, I.exc_stack, I.depth = I.frames + self.frames, I.exc_stack + self.excs, I.depth + self.depth
        if self.thread is None:
            self.go, self.back = threading.Lock(), threading.Lock()
            self.go.acquire()
            self.back.acquire()
            self.thread = threading.Thread(target=self.run, daemon=True)
            threading.stack_size(256 << 20)
            self.thread.start()
        else:
            self.go.release()
        self.back.acquire()
        if not self.done:
            f, x, d = self.base
            self.frames, self.excs, self.depth = I.frames[f:], I.exc_stack[x:], I.depth - d
        I.frames, I.exc_stack, I.depth = saved
        if self.error is not None:
            e, self.error = self.error, None
            raise e
        return _MISSING if self.done else self.value

    def run(self):
        I = self.I
        try:
            self.fr.yields = self
            I.enter(self.fn, self.fr)
            try:
                I.block(self.fn.node.body, self.fr)
            except ReturnSig as r:
                self.ret = r.v
            finally:
                if not self.closed:
                    I.leave()
        except BaseException as e:
            if not self.closed:
                self.error = e
        self.done = True
        self.back.release()

    def append(self, v):
        self.value = v
        self.back.release()
        self.go.acquire()
        if self.closed:
            raise _Closed()
        x, self.sent = self.sent, None
        return x

    def close(self):
        if self.thread is not None and not self.done:
            self.closed = True
            self.go.release()
            self.back.acquire()
            self.thread.join()


class Fiber(_Channel):
    """Evaluation of a concurrent activity (thread, asyncio task, process), alternating with what it is concurrent to."""

    def __init__(self, I, body):
        _Channel.__init__(self, I, None, None)
        self.body = body

    def run(self):
        try:
            self.body()
        except BaseException as e:
            if not self.closed:
                self.error = e
        self.done = True
        self.back.release()

    def park(self):
        """Called by the activity: gives control back until it is sent a value."""
        return self.append(None)

    def send(self, v):
        self.sent = v
        self.resume()


class Frame:
    __slots__ = ('locals', 'parent', 'module', 'func', 'cls_name', 'globals_', 'nonlocals', 'is_class', 'self_val',
                 'node', 'yields', 'loopcount', 'on_yield')

    def __init__(self, module, parent=None, func=None, cls_name=None, is_class=False):
        self.locals = {}
        self.parent = parent
        self.module = module
        self.func = func
        self.cls_name = cls_name
        self.globals_ = set()
        self.nonlocals = set()
        self.is_class = is_class
        self.self_val = None
        self.node = None
        self.yields = None
        self.loopcount = None
        self.on_yield = None


_MISSING = object()
NATIVE_ABSENT = {'repo', 'observe', 'get_value', 'name_', 'use_reference'}
CONCRETE = (int, float, str, bytes, bool, type(None), complex, slice, range, type(Ellipsis))


class APath(pathlib.PurePosixPath):
    """A path of the analysed program; which files there are is part of the scenario."""
    FILES = set()

    def is_file(self):
        return str(self.absolute()) in self.FILES

    def is_dir(self):
        return any(f.startswith(str(self.absolute()) + '/') for f in self.FILES)

    def exists(self):
        return self.is_file() or self.is_dir()

    def absolute(self):
        return self if self.is_absolute() else APath('/cwd') / self

    def resolve(self, strict=False):
        return self.absolute()


def is_concrete(v):
    import datetime
    return isinstance(v, CONCRETE) or isinstance(v, APath) or isinstance(v, (datetime.datetime, datetime.timedelta, datetime.date,
                                                      datetime.time, datetime.tzinfo))


class Program:
    """All non-test modules of the package, parsed."""

    def __init__(self, root='/repo', pkg='rocketry'):
        self.root = root
        self.pkg = pkg
        self.modules = {}
        base = os.path.join(root, pkg)
        if not os.path.isdir(base):
            raise AnalysisError('package directory %s is missing' % base)
        for dp, dns, fns in os.walk(base):
            dns[:] = sorted(d for d in dns if d not in ('test', 'tests', '__pycache__'))
            for fn in sorted(fns):
                if not fn.endswith('.py'):
                    continue
                p = os.path.join(dp, fn)
                rel = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-len('.__init__')]
                with open(p, encoding='utf-8') as f:
                    src = f.read()
                try:
                    tree = ast.parse(src, p)
                except SyntaxError as e:
                    raise AnalysisError('%s does not parse: %s' % (p, e))
                m = ModuleVal(rel, os.path.relpath(p, root), tree, src)
                m.is_pkg = fn == '__init__.py'
                self.modules[rel] = m

    def n_functions(self):
        return sum(isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda))
                   for m in self.modules.values() for n in ast.walk(m.tree))


class Interp:
    MAX_DEPTH = 80
    MAX_STEPS = 400000

    abort_on_taint = False

    def __init__(self, prog, k=2):
        from . import stdlib
        self.prog = prog
        self.k = k
        self.ext = {}
        self.builtins = {}
        self.stubs = {}            # qualname -> fn(I, func, args, kwargs)
        self.inlined = set()       # functions analysed (qualnames)
        self.snap = None
        self.base_loggers = {}
        self.reset([])
        stdlib.install(self)
        from . import env
        env.install(self)

    def load_all(self):
        """Abstractly initialise every module of the package, then remember the resulting static state."""
        self.module(self.prog.pkg)
        for m in sorted(self.prog.modules):
            self.module(m)
        self.base_loggers = dict(self.loggers)
        self.init_taint = list(self.tainted)
        self.init_decisions = list(self.decisions)
        self.snapshot()

    def snapshot(self):
        """Record every mutable container reachable from module and class namespaces (static state)."""
        seen = {}
        stack = [m for m in self.prog.modules.values()] + list(self.loggers.values())
        while stack:
            v = stack.pop()
            if id(v) in seen:
                continue
            if isinstance(v, ModuleVal):
                seen[id(v)] = (v, dict(v.ns))
                stack.extend(v.ns.values())
            elif isinstance(v, ClassVal):
                seen[id(v)] = (v, dict(v.ns))
                stack.extend(v.ns.values())
                stack.extend(v.bases)
                if v.pyd:
                    stack.extend(v.pyd['defaults'].values())
            elif isinstance(v, Obj):
                seen[id(v)] = (v, (dict(v.fields), dict(v.data)))
                stack.extend(v.fields.values())
                stack.extend(x for x in v.data.values())
            elif isinstance(v, (AList, ASet)):
                seen[id(v)] = (v, list(v.items))
                stack.extend(v.items)
            elif isinstance(v, ADict):
                seen[id(v)] = (v, dict(v.d))
                stack.extend(v.d.values())
                stack.extend(v.d.keys())
            elif isinstance(v, (tuple, list)):
                stack.extend(v)
            elif isinstance(v, (Func, Builtin)):
                seen[id(v)] = (v, dict(v.attrs))
                stack.extend(v.attrs.values())
                if isinstance(v, Func):
                    stack.extend(v.defaults)
                    stack.extend(v.kw_defaults.values())
                    g = v.closure
                    while g is not None:
                        stack.extend(g.locals.values())
                        g = g.parent
            elif isinstance(v, Bound):
                stack.extend([v.func, v.self])
            elif isinstance(v, Partial):
                stack.append(v.func)
                stack.extend(v.args)
                stack.extend(v.kwargs.values())
            elif isinstance(v, (StaticM, ClassM)):
                stack.append(v.f)
            elif isinstance(v, PropVal):
                stack.extend([v.fget, v.fset])
            elif isinstance(v, (ValidatorVal, CachedProp)):
                stack.append(v.f)
            elif isinstance(v, FieldInfo):
                stack.extend([v.default, v.factory])
        self.snap = list(seen.values())

    def restore(self):
        for v, s in self.snap:
            if isinstance(v, (ModuleVal, ClassVal)):
                if v.ns != s or len(v.ns) != len(s):
                    v.ns.clear()
                    v.ns.update(s)
            elif isinstance(v, Obj):
                v.fields = dict(s[0])
                v.data = dict(s[1])
            elif isinstance(v, (AList, ASet)):
                v.items = list(s)
            elif isinstance(v, ADict):
                v.d = dict(s)
            else:
                v.attrs = dict(s)

    # ---------------------------------------------------------------- path control
    channels = ()

    def reset(self, prefix):
        for ch in self.channels:
            ch.close()
        self.channels = []
        if self.snap is not None:
            self.restore()
        self.loggers = dict(self.base_loggers)
        self.prefix = prefix
        self.widths = [0] * len(prefix)
        self.pos = 0
        self.memo = {}
        self.decisions = []
        self.trace = []
        self.depth = 0
        self.steps = 0
        self.tainted = []
        self.exc_stack = []
        self.frames = []
        self.fresh_ctr = 0
        self.call_stack = []
        self.order = None
        self.world = None
        self.loop_bound_hit = False
        self.on_event = None

    def choose(self, key, options, visible=True):
        if key in self.memo:
            return self.memo[key]
        if len(options) == 1:
            self.memo[key] = options[0]
            return options[0]
        i = self.pos
        if i < len(self.prefix):
            idx = self.prefix[i]
            if len(self.widths) <= i:
                self.widths.append(0)
        else:
            idx = 0
            self.prefix.append(0)
            self.widths.append(0)
        self.widths[i] = len(options)
        self.pos += 1
        v = options[idx]
        self.memo[key] = v
        self.decisions.append((key, v, self.loc()))
        return v

    def decide(self, key):
        if key not in self.memo and self._unmodelled(key):
            self.tainted.append(('branch on unmodelled value', key, self.loc()))
            if self.abort_on_taint:
                raise PathAbort('branch on unmodelled value %s' % pretty(key))
        return self.choose(key, [True, False])

    def _unmodelled(self, key):
        if isinstance(key, tuple):
            if len(key) > 0 and key[0] == 'extcall':
                return True
            return any(self._unmodelled(x) for x in key)
        return False

    def taint(self, why):
        self.tainted.append((why, None, self.loc()))

    def fresh(self, base):
        self.fresh_ctr += 1
        return ('fresh', base, self.fresh_ctr)

    def loc(self):
        if self.frames:
            f = self.frames[-1]
            n = f.node
            return '%s:%s:%s' % (f.module.path, getattr(n, 'lineno', '?'), f.func.qualname if f.func else '<module>')
        return '<rule>'

    def chain(self, n=5):
        """Innermost package call sites, e.g. 'a.py:3:f <- b.py:9:g'."""
        out = []
        for f in reversed(self.frames):
            if f.module.path == '<client>':
                continue
            s = '%s:%s:%s' % (f.module.path, getattr(f.node, 'lineno', '?'), f.func.qualname.rpartition('.')[2] if f.func else '<module>')
            if not out or out[-1] != s:
                out.append(s)
            if len(out) >= n:
                break
        return ' <- '.join(out) or '<rule>'

    def event(self, kind, **d):
        e = Event(kind, d, self.loc())
        self.trace.append(e)
        if self.on_event:
            self.on_event(e)
        return e

    # ---------------------------------------------------------------- modules
    def module(self, name):
        m = self.prog.modules.get(name)
        if m is None:
            raise AnalysisError('module %s is missing from the package' % name)
        if m.state == 0:
            parent = name.rpartition('.')[0]
            if parent and parent in self.prog.modules:
                self.module(parent)
                if m.state != 0:
                    return m
            m.state = 1
            f = Frame(m)
            f.locals = m.ns
            m.ns.setdefault('__name__', name)
            self.frames.append(f)
            try:
                self.block(m.tree.body, f)
            finally:
                self.frames.pop()
            m.state = 2
            if parent and parent in self.prog.modules:
                self.prog.modules[parent].ns[name.rpartition('.')[2]] = m
        return m

    def get(self, dotted):
        """Resolve a dotted name of the package: module, class, function or attribute."""
        parts = dotted.split('.')
        for i in range(len(parts), 0, -1):
            mn = '.'.join(parts[:i])
            if mn in self.prog.modules:
                v = self.module(mn)
                for p in parts[i:]:
                    if isinstance(v, ModuleVal):
                        if p not in v.ns:
                            raise AnalysisError('anchor %s: %s is missing' % (dotted, p))
                        v = v.ns[p]
                    elif isinstance(v, ClassVal):
                        r = self.class_lookup(v, p)
                        if r is _MISSING:
                            raise AnalysisError('anchor %s: %s is missing' % (dotted, p))
                        v = r
                    else:
                        raise AnalysisError('anchor %s cannot be resolved' % dotted)
                return v
        raise AnalysisError('anchor %s cannot be resolved' % dotted)

    def extref(self, path):
        if path in self.ext:
            return self.ext[path]
        return ExtRef(path)

    def import_from(self, frame, module, level, names):
        if level:
            base = frame.module.name.split('.')
            if not getattr(frame.module, 'is_pkg', False):
                base = base[:-1]
            if level > 1:
                base = base[:-(level - 1)]
            module = '.'.join(base + ([module] if module else []))
        for a in names:
            if module in self.prog.modules:
                m = self.module(module)
                if a.name == '*':
                    allv = m.ns.get('__all__')
                    pub = allv.items if isinstance(allv, AList) else [n for n in m.ns if not n.startswith('_')]
                    for n in pub:
                        self.set_name(frame, n, m.ns[n])
                    continue
                if a.name in m.ns:
                    v = m.ns[a.name]
                elif module + '.' + a.name in self.prog.modules:
                    v = self.module(module + '.' + a.name)
                else:
                    raise AnalysisError('cannot resolve import %s.%s in %s' % (module, a.name, frame.module.path))
            else:
                if a.name == '*':
                    continue
                v = self.extref(module + '.' + a.name)
            self.set_name(frame, a.asname or a.name, v)

    # ---------------------------------------------------------------- names
    def set_name(self, f, name, v):
        if name in f.globals_:
            f.module.ns[name] = v
            return
        if name in f.nonlocals:
            p = f.parent
            while p is not None:
                if name in p.locals and not p.is_class:
                    p.locals[name] = v
                    return
                p = p.parent
        f.locals[name] = v

    def get_name(self, f, name):
        if name not in f.globals_:
            g = f
            first = True
            while g is not None:
                if name in g.locals and (first or not g.is_class):
                    return g.locals[name]
                first = False
                g = g.parent
        if name in f.module.ns:
            return f.module.ns[name]
        if name in self.builtins:
            return self.builtins[name]
        self.raise_('NameError', "name '%s' is not defined" % name)

    # ---------------------------------------------------------------- exceptions
    def exc_class(self, c):
        if isinstance(c, str):
            return PyClass(BUILTIN_EXC[c])
        return c

    def make_exc(self, cls, args=()):
        cls = self.exc_class(cls)
        if isinstance(cls, PyClass):
            return Obj(cls, {'args': tuple(args)}, label='%s()' % cls.name)
        o = Obj(cls, {'args': tuple(args)}, label='%s()' % cls.name)
        return o

    def raise_(self, cls, *args):
        raise AbsRaise(self.make_exc(cls, args), self.loc())

    def exc_match(self, exc, handler):
        handler = self.force(handler)
        if isinstance(handler, (tuple, AList)):
            items = handler if isinstance(handler, tuple) else handler.items
            return any(self.exc_match(exc, h) for h in items)
        return self.isinstance(exc, handler)

    def exc_is(self, exc, name):
        """Test helper: exception is (a subclass of) the class called `name`."""
        c = exc.cls
        if isinstance(c, PyClass):
            return any(b.__name__ == name for b in c.t.__mro__)
        for b in self.mro(c):
            if isinstance(b, PyClass):
                if any(x.__name__ == name for x in b.t.__mro__):
                    return True
            elif b.name == name or b.path == name:
                return True
        return False

    # ---------------------------------------------------------------- classes
    def mro(self, cls):
        if isinstance(cls, PyClass):
            return [cls]
        if cls.mro is None:
            seqs = []
            for b in cls.bases:
                b = self.force(b)
                if isinstance(b, ClassVal):
                    seqs.append(list(self.mro(b)))
                elif isinstance(b, PyClass):
                    seqs.append([b])
                elif isinstance(b, ExtRef):
                    seqs.append([b])
            seqs.append([b for b in map(self.force, cls.bases) if isinstance(b, (ClassVal, PyClass, ExtRef))])
            out = [cls]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                out.append(c)
                seqs = [[x for x in s if x != c] for s in seqs]
                seqs = [s for s in seqs if s]
            cls.mro = out
        return cls.mro

    def class_lookup(self, cls, name, after=None):
        started = after is None
        for c in self.mro(cls):
            if not started:
                if c is after:
                    started = True
                continue
            if isinstance(c, ClassVal):
                if name in c.ns:
                    return c.ns[name]
            elif isinstance(c, (PyClass, ExtRef)):
                v = self.ext.get('%s.%s' % (c.path, name))
                if v is not None:
                    return v
                if isinstance(c, PyClass) and name in ('__init__',) and issubclass(c.t, BaseException):
                    return Builtin('BaseException.__init__', lambda I, a, k: I._exc_init(a, k))
        if name == '__init__':
            return _MISSING
        return _MISSING

    def _exc_init(self, a, k):
        a[0].fields['args'] = tuple(a[1:])
        return None

    def is_subclass(self, c, d):
        c = self.force(c)
        d = self.force(d)
        if isinstance(d, tuple):
            return any(self.is_subclass(c, x) for x in d)
        if c is d or c == d:
            return True
        if isinstance(c, ClassVal):
            for b in self.mro(c):
                if b is d or b == d:
                    return True
                if isinstance(b, PyClass) and isinstance(d, PyClass) and issubclass(b.t, d.t):
                    return True
            return isinstance(d, PyClass) and d.t is object
        if isinstance(c, PyClass) and isinstance(d, PyClass):
            return issubclass(c.t, d.t)
        return False

    def isinstance(self, v, cls):
        v = self.force(v)
        cls = self.force(cls)
        if isinstance(cls, (tuple, AList)):
            for c in (cls if isinstance(cls, tuple) else cls.items):
                if self.isinstance(v, c):
                    return True
            return False
        if isinstance(cls, UnionVal):
            return any(self.isinstance(v, c) for c in cls.items)
        if isinstance(v, Obj):
            return self.is_subclass(v.cls, cls)
        if isinstance(v, Sym):
            if v.typ is not None:
                return self.is_subclass(v.typ, cls)
            cn = getattr(cls, 'path', getattr(cls, 'name', repr(cls)))
            if v.meta and 'isinstance' in v.meta:
                return bool(v.meta['isinstance'](cls))
            if self.memo.get(('isnone', v.key)) is True:
                return False
            return self.decide(('isinstance', v.key, cn))
        t = self.pytype(v)
        if isinstance(cls, PyClass):
            return issubclass(t, cls.t)
        if isinstance(cls, ExtRef):
            n = cls.path
            if n in ('collections.abc.Callable', 'typing.Callable'):
                return self.is_callable(v)
            if n in ('collections.abc.Mapping', 'typing.Mapping'):
                return t is dict
            if n in ('typing.Pattern', 're.Pattern'):
                return False
            return False
        if isinstance(cls, ClassVal):
            if cls.path == 'collections.abc.Mapping':
                return t is dict
            return False
        return False

    def is_callable(self, v):
        if isinstance(v, (Func, Bound, Builtin, Partial, ClassVal, PyClass, ExtRef)):
            return True
        if isinstance(v, Obj):
            return self.class_lookup(v.cls, '__call__') is not _MISSING
        if isinstance(v, Sym):
            if v.meta and 'callable' in v.meta:
                return v.meta['callable']
            return self.decide(('callable', v.key))
        return False

    def pytype(self, v):
        if isinstance(v, AList):
            return list
        if isinstance(v, ADict):
            return dict
        if isinstance(v, ASet):
            return frozenset if v.frozen else set
        if isinstance(v, (Func, Bound, Builtin, Partial)):
            return type(lambda: 0)
        if isinstance(v, (ClassVal, PyClass)):
            return type
        if isinstance(v, TD):
            import datetime
            return datetime.timedelta
        if isinstance(v, Lin):
            return int
        if isinstance(v, DT):
            import datetime
            return datetime.datetime
        if isinstance(v, AIter):
            return type(iter(()))
        if isinstance(v, Coro):
            return type(None.__init__)
        return type(v)

    def type_of(self, v):
        v = self.force(v)
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, Sym):
            return v.typ if v.typ is not None else Sym(('type', v.key))
        return PyClass(self.pytype(v))

    # ---------------------------------------------------------------- forcing and truth
    def force(self, v):
        while isinstance(v, Choice):
            key = ('choice', v.name)
            if isinstance(v, Free) and key not in self.memo:
                used = self.memo.get('#free', 0)
                r = self.choose(key, v.options if used < self.free_budget else v.options[:1])
                if r is not v.options[0]:
                    self.memo['#free'] = used + 1
                v = r
                continue
            v = self.choose(key, v.options)
        return v

    free_budget = 1

    def truth(self, v):
        v = self.force(v)
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (AList, ASet)):
            return len(v.items) > 0
        if isinstance(v, ADict):
            return len(v.d) > 0
        if isinstance(v, Sym):
            if v.meta and v.meta.get('truthy') is not None:
                return v.meta['truthy']
            if self.memo.get(('isnone', v.key)) is True:
                return False
            r = self.decide(('T', v.key))
            if r:
                self.memo.setdefault(('isnone', v.key), False)
            return r
        if isinstance(v, Lin):
            return not self.eq(v, 0)
        if isinstance(v, Obj):
            m = self.class_lookup(v.cls, '__bool__')
            if m is not _MISSING:
                return self.truth(self.call(self.bind(m, v), [], {}))
            m = self.class_lookup(v.cls, '__len__')
            if m is not _MISSING:
                return self.truth(self.call(self.bind(m, v), [], {}))
            return True
        if is_concrete(v) or isinstance(v, tuple):
            return bool(v)
        return True

    # ---------------------------------------------------------------- comparison
    def sign(self, d):
        """Sign of a linear form (or number): -1, 0, 1."""
        if not isinstance(d, Lin):
            return (d > 0) - (d < 0)
        if not d.co:
            return (d.const > 0) - (d.const < 0)
        if self.order is not None:
            r = self.order(d)
            if r is not None:
                return r
        k = d.key()
        neg = d.scale(-1).key()
        if repr(neg) < repr(k):
            return -self.choose(('sign', neg), [-1, 0, 1])
        return self.choose(('sign', k), [-1, 0, 1])

    def td(self, a, b):
        """Timedeltas compared with an abstract timedelta as their seconds."""
        import datetime
        if isinstance(a, TD) and isinstance(b, datetime.timedelta):
            return a, b.total_seconds()
        if isinstance(b, TD) and isinstance(a, datetime.timedelta):
            return a.total_seconds(), b
        return a, b

    def linable(self, v):
        return isinstance(v, Lin) or (isinstance(v, (int, float)) and not isinstance(v, bool))

    def compare(self, op, a, b):
        """op in lt le gt ge"""
        a = self.force(a)
        b = self.force(b)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        for x, y, o in ((a, b, op), (b, a, {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}[op])):
            if isinstance(x, Obj):
                m = self.class_lookup(x.cls, '__%s__' % o)
                if m is not _MISSING:
                    r = self.call(self.bind(m, x), [y], {})
                    if r is not NOTIMPL:
                        return r
        a, b = self.td(a, b)
        if isinstance(a, DT) or isinstance(b, DT):
            s = self.dt_cmp(a, b)
            if s is None:
                self.raise_('TypeError', "can't compare offset-naive and offset-aware datetimes or other types")
        elif self.linable(a) and self.linable(b):
            if isinstance(a, Lin) or isinstance(b, Lin):
                d = (a if isinstance(a, Lin) else Lin({}, a)).add(b, -1)
                s = self.sign(d)
            else:
                s = (a > b) - (a < b)
        elif isinstance(a, ASet) and isinstance(b, ASet):
            sub = all(any(self.eq(x, y) for y in b.items) for x in a.items)
            sup = all(any(self.eq(x, y) for x in a.items) for y in b.items)
            return {'le': sub, 'ge': sup, 'lt': sub and not sup, 'gt': sup and not sub}[op]
        elif isinstance(a, Sym) or isinstance(b, Sym) or isinstance(a, Lin) or isinstance(b, Lin):
            if a is None or b is None:
                self.raise_('TypeError', 'comparison with None')
            ka, kb = key_of(a), key_of(b)
            if ka == kb:
                s = 0
            elif repr(ka) <= repr(kb):
                s = self._cmp(ka, kb)
            else:
                s = -self._cmp(kb, ka)
        elif isinstance(a, tuple) and isinstance(b, tuple):
            for x, y in zip(a, b):
                if not self.eq(x, y):
                    return self.compare(op, x, y)
            s = (len(a) > len(b)) - (len(a) < len(b))
        elif isinstance(a, AList) and isinstance(b, AList):
            return self.compare(op, tuple(a.items), tuple(b.items))
        elif is_concrete(a) and is_concrete(b):
            try:
                s = (a > b) - (a < b)
            except TypeError as e:
                self.raise_('TypeError', str(e))
        else:
            self.raise_('TypeError', 'unorderable %r %r' % (short(a), short(b)))
        return {'lt': s < 0, 'le': s <= 0, 'gt': s > 0, 'ge': s >= 0}[op]

    def dt_cmp(self, a, b):
        """Order of two datetimes (one abstract): sign, or None if not comparable."""
        import datetime
        for x in (a, b):
            if not isinstance(x, (DT, datetime.datetime)):
                if isinstance(x, (Sym, Lin)):
                    raise Unsupported('comparison of a datetime with %s' % short(x))
                return None
        tz = [x.tz if isinstance(x, DT) else x.tzinfo for x in (a, b)]
        if (tz[0] is None) != (tz[1] is None):
            return None
        if isinstance(a, DT) and isinstance(b, DT):
            return self.sign(a.lin.add(b.lin, -1))
        c, s = (b, 1) if isinstance(a, DT) else (a, -1)
        if c.year <= 1971:          # the smallest and the largest point of time
            return s
        if c.year >= 2200:
            return -s
        raise Unsupported('comparison of an abstract with a constant datetime')

    def _cmp(self, ka, kb):
        k = ('cmp', ka, kb)
        if k in self.memo:
            return self.memo[k]
        e = self.memo.get(('eq', ka, kb))
        if e is True:
            return 0
        if self._unmodelled(k):
            self.tainted.append(('branch on unmodelled value', k, self.loc()))
            if self.abort_on_taint:
                raise PathAbort('comparison of unmodelled value %s' % pretty(k))
        opts = [-1, 1] if e is False else [-1, 0, 1]
        return self.choose(k, opts)

    def identical(self, a, b):
        a = self.force(a)
        b = self.force(b)
        if a is b:
            return True
        for x, y in ((a, b), (b, a)):
            if y is None:
                if isinstance(x, Sym):
                    if x.meta and x.meta.get('notnone'):
                        return False
                    if x.typ is not None:
                        return False
                    if self.memo.get(('T', x.key)) is True:
                        return False
                    return self.decide(('isnone', x.key))
                return False
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a.key == b.key:
                return True
            return self.eq(a, b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            s = a if isinstance(a, Sym) else b
            o = b if s is a else a
            if isinstance(o, bool) or o is Ellipsis:
                return self.eq(a, b)
            if isinstance(o, Obj):
                if s.meta and s.meta.get('notobj'):
                    return False
                return self.decide(('is', s.key, key_of(o)))
            return False
        if isinstance(a, (PyClass, ExtRef)):
            return a == b
        if isinstance(a, (bool,)) or isinstance(b, bool):
            return isinstance(a, bool) and isinstance(b, bool) and a == b
        if isinstance(a, Bound) and isinstance(b, Bound):
            return False
        if isinstance(a, (str, int)) and isinstance(b, (str, int)):
            return type(a) is type(b) and a == b
        return False

    def eq(self, a, b):
        return self.truth(self.eq_val(a, b))

    def eq_val(self, a, b):
        a = self.force(a)
        b = self.force(b)
        if isinstance(a, Sym) and isinstance(b, Sym) and a.key == b.key:
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj):
                owner = self._dc_eq_owner(x.cls)
                if owner is not None:
                    if isinstance(y, Obj) and y.cls is x.cls:
                        return all(self.eq(x.fields.get(n), y.fields.get(n)) for n, _ in self.dc_fields(owner))
                    continue
                m = self.class_lookup(x.cls, '__eq__')
                if m is not _MISSING:
                    r = self.call(self.bind(m, x), [y], {})
                    if r is not NOTIMPL:
                        return r
        if a is b:
            return True
        if isinstance(a, Obj) or isinstance(b, Obj):
            o, s = (a, b) if isinstance(a, Obj) else (b, a)
            if isinstance(s, Sym):
                if s.meta and s.meta.get('notobj'):
                    return False
                return self.decide(('is', s.key, key_of(o)))
            return False
        a, b = self.td(a, b)
        if isinstance(a, DT) or isinstance(b, DT):
            return self.dt_cmp(a, b) == 0
        if isinstance(a, Lin) or isinstance(b, Lin):
            if self.linable(a) and self.linable(b):
                d = (a if isinstance(a, Lin) else Lin({}, a)).add(b, -1)
                return self.sign(d) == 0
            if isinstance(a, Sym) or isinstance(b, Sym):
                ka, kb = sorted((key_of(a), key_of(b)), key=repr)
                return self.decide(('eq', ka, kb))
            return False
        if isinstance(a, Sym) or isinstance(b, Sym):
            s, o = (a, b) if isinstance(a, Sym) else (b, a)
            if o is None:
                return self.identical(s, None)
            if self.memo.get(('isnone', s.key)) is True:
                return False
            ka, kb = key_of(s), key_of(o)
            if not isinstance(o, Sym):
                for (kk, vv) in list(self.memo.items()):
                    if kk[0] == 'eq' and vv is True and s.key in kk[1:]:
                        other = kk[2] if kk[1] == s.key else kk[1]
                        if other[0] == 'c' and kb[0] == 'c' and other != kb:
                            return False
                if s.meta and 'dom' in s.meta and o not in s.meta['dom']:
                    return False
            ka, kb = sorted((ka, kb), key=repr)
            c = self.memo.get(('cmp', ka, kb))
            if c is not None:
                return c == 0
            r = self.decide(('eq', ka, kb))
            if r and not isinstance(o, Sym):
                self.memo.setdefault(('T', s.key), bool(o) if is_concrete(o) else True)
                self.memo.setdefault(('isnone', s.key), False)
            return r
        if isinstance(a, AList) and isinstance(b, AList):
            return len(a.items) == len(b.items) and all(self.eq(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, ADict) and isinstance(b, ADict):
            if len(a.d) != len(b.d):
                return False
            for k, v in a.d.items():
                kk = self.dict_find(b, k)
                if kk is _MISSING or not self.eq(v, b.d[kk]):
                    return False
            return True
        if isinstance(a, ASet) and isinstance(b, ASet):
            return (len(a.items) == len(b.items)
                    and all(any(self.eq(x, y) for y in b.items) for x in a.items))
        if isinstance(a, (PyClass, ExtRef)):
            return a == b
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.func is b.func and a.self is b.self
        if (is_concrete(a) and is_concrete(b)):
            return a == b
        return False

    def dict_find(self, d, k):
        """Find the stored key equal to k."""
        k = self.force(k)
        try:
            if k in d.d:
                return k
        except TypeError:
            self.raise_('TypeError', 'unhashable')
        if isinstance(k, (AList, ADict)) or (isinstance(k, ASet) and not k.frozen):
            self.raise_('TypeError', 'unhashable type')
        if isinstance(k, (Sym, Lin)):
            for kk in d.d:
                if self.eq(kk, k):
                    return kk
            return _MISSING
        for kk in d.d:
            if isinstance(kk, (Sym, Lin)) and self.eq(kk, k):
                return kk
            if isinstance(kk, Obj) and isinstance(k, Obj) and kk is not k:
                if not self._ident_hash(kk.cls) and self.eq(kk, k):
                    return kk
            if isinstance(kk, ASet) and isinstance(k, ASet) and self.eq(kk, k):
                return kk
        return _MISSING

    def _ident_hash(self, cls):
        h = self.class_lookup(cls, '__hash__')
        if h is not _MISSING and h is not None:
            return True
        return self.class_lookup(cls, "__eq__") is _MISSING and not (isinstance(cls, ClassVal) and self._dc_eq_owner(cls))

    def contains(self, item, coll):
        coll = self.force(coll)
        item = self.force(item)
        if isinstance(coll, (AList, ASet)):
            return any(self.identical_q(x, item) or self.eq(x, item) for x in coll.items)
        if isinstance(coll, tuple):
            return any(self.identical_q(x, item) or self.eq(x, item) for x in coll)
        if isinstance(coll, ADict):
            return self.dict_find(coll, item) is not _MISSING
        if isinstance(coll, str):
            if isinstance(item, str):
                return item in coll
            return self.decide(('in', key_of(item), key_of(coll)))
        if isinstance(coll, range) and isinstance(item, int):
            return item in coll
        if isinstance(coll, Obj):
            m = self.class_lookup(coll.cls, '__contains__')
            if m is not _MISSING:
                return self.truth(self.call(self.bind(m, coll), [item], {}))
            m = self.class_lookup(coll.cls, '__iter__')
            if m is not _MISSING:
                return any(self.identical_q(x, item) or self.eq(x, item) for x in self.iterate(coll))
            self.raise_('TypeError', 'argument is not iterable')
        if isinstance(coll, (AIter, DictView)):
            return any(self.identical_q(x, item) or self.eq(x, item) for x in self.iterate(coll))
        if isinstance(coll, Sym):
            if coll.meta and 'contains' in coll.meta:
                return self.truth(coll.meta['contains'](self, item))
            return self.decide(('in', key_of(item), coll.key))
        self.raise_('TypeError', 'argument is not iterable')

    def identical_q(self, a, b):
        """`is` without splitting."""
        a = self.force(a)
        b = self.force(b)
        if a is b:
            return True
        return isinstance(a, Sym) and isinstance(b, Sym) and a.key == b.key

    # ---------------------------------------------------------------- iteration
    def iterate(self, v):
        v = self.force(v)
        if isinstance(v, AList):
            return self._iter_list(v)
        if isinstance(v, ASet):
            return self._iter_sized(list(v.items), lambda: len(v.items), 'Set')
        if isinstance(v, (tuple, str, range, bytes)):
            return iter(v)
        if isinstance(v, ADict):
            return self._iter_sized(list(v.d), lambda: len(v.d), 'dictionary')
        if isinstance(v, DictView):
            return self._iter_sized(v.snapshot(), lambda: len(v.d.d), 'dictionary')
        if isinstance(v, AIter):
            return v.it
        if isinstance(v, Obj):
            m = self.class_lookup(v.cls, '__iter__')
            if m is not _MISSING:
                it = self.force(self.call(self.bind(m, v), [], {}))
                if isinstance(it, Obj) and self.class_lookup(it.cls, '__next__') is not _MISSING:
                    return self._iter_next(it, '__next__', 'StopIteration')
                return self.iterate(it)
            m = self.class_lookup(v.cls, '__getitem__')
            if m is not _MISSING:
                return self._iter_getitem(v, m)
            if v.lazy:
                return iter(self.unknown_elems(('obj', v.label)))
            self.raise_('TypeError', "object is not iterable")
        if isinstance(v, Sym):
            if v.meta and 'iter' in v.meta:
                return iter(v.meta['iter'](self))
            return iter(self.unknown_elems(v.key))
        if isinstance(v, ClassVal) and v.enum is not None:
            return iter(list(v.enum.values()))
        if isinstance(v, ExtRef):
            return iter(self.unknown_elems(('ref', v.path)))
        self.raise_('TypeError', '%s object is not iterable' % short(v))

    def unknown_elems(self, key):
        n = self.choose(('len', key), list(range(self.k + 1)))
        return [Sym(('elem', key, i)) for i in range(n)]

    def _iter_sized(self, items, size, what):
        n = size()
        for x in items:
            if size() != n:
                self.raise_('RuntimeError', what + ' changed size during iteration')
            yield x
        if size() != n:
            self.raise_('RuntimeError', what + ' changed size during iteration')

    def _iter_list(self, v):
        i = 0
        while i < len(v.items):
            yield v.items[i]
            i += 1

    def _iter_getitem(self, v, m):
        i = 0
        while True:
            try:
                x = self.call(self.bind(m, v), [i], {})
            except AbsRaise as e:
                if self.exc_is(e.exc, 'IndexError'):
                    return
                raise
            yield x
            i += 1

    def length(self, v):
        v = self.force(v)
        if isinstance(v, (AList, ASet)):
            return len(v.items)
        if isinstance(v, ADict):
            return len(v.d)
        if isinstance(v, DictView):
            return len(v.snapshot())
        if isinstance(v, (tuple, str, bytes, range)):
            return len(v)
        if isinstance(v, Obj):
            m = self.class_lookup(v.cls, '__len__')
            if m is not _MISSING:
                return self.call(self.bind(m, v), [], {})
        if isinstance(v, Sym):
            if v.meta and 'iter' in v.meta:
                return len(list(v.meta['iter'](self)))
            return self.choose(('len', v.key), list(range(self.k + 1)))
        self.raise_('TypeError', 'object has no len()')

    # ---------------------------------------------------------------- attributes
    def bind(self, v, obj, cls=None):
        if isinstance(v, (Func, Builtin)):
            return Bound(v, obj)
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, ClassM):
            return Bound(v.f, cls if cls is not None else self.type_of(obj))
        if isinstance(v, PropVal):
            return self.call(v.fget, [obj], {})
        if isinstance(v, CachedProp):
            if v.name not in obj.fields:
                obj.fields[v.name] = self.call(v.f, [obj], {})
            return obj.fields[v.name]
        if isinstance(v, ValidatorVal):
            return Bound(v.f, self.type_of(obj))
        if isinstance(v, FieldInfo):
            return v
        return v

    def getattr(self, v, name, default=_MISSING):
        try:
            return self._getattr(v, name)
        except AbsRaise as e:
            if default is not _MISSING and self.exc_is(e.exc, 'AttributeError'):
                return default
            raise

    def _getattr(self, v, name):
        v = self.force(v)
        if isinstance(v, Obj):
            hook = v.data.get('getattr')
            if hook is not None:
                r = hook(self, v, name)
                if r is not _MISSING:
                    return r
            if name == '__dict__':
                return ADict(v.fields)
            if name == '__class__':
                return v.cls
            c = self.class_lookup(v.cls, name)
            if isinstance(c, PropVal):
                return self.bind(c, v)
            if name in v.fields:
                return v.fields[name]
            if c is not _MISSING:
                return self.bind(c, v)
            if isinstance(v.cls, PyClass) and name in ('args', '__traceback__', '__cause__'):
                return v.fields.get(name)
            m = self.class_lookup(v.cls, '__getattr__')
            if m is not _MISSING:
                return self.call(self.bind(m, v), [name], {})
            if v.lazy:
                s = Sym(('attr', ('obj', v.label), name))
                v.fields[name] = s
                return s
            if isinstance(v.cls, ClassVal) and v.cls.ext and v.cls.name != 'module' and not name.startswith('_') and name not in NATIVE_ABSENT \
                    and not (name == 'run_id' and v.cls.path == 'logging.LogRecord'):
                # attribute of a library object the model does not know: an unmodelled value
                return Sym(('extcall', 'attr', v.cls.path, v.label or id(v), name))
            self.raise_('AttributeError', "'%s' object has no attribute '%s'" % (getattr(v.cls, 'name', '?'), name))
        if isinstance(v, ClassVal):
            if name == '__name__' or name == '__qualname__':
                return v.name
            if name == '__mro__':
                return tuple(self.mro(v))
            if name == '__module__':
                return v.module.name if v.module else 'ext'
            if name == '__dict__':
                return ADict(v.ns)
            if name == '__bases__':
                return tuple(v.bases)
            c = self.class_lookup(v, name)
            if c is not _MISSING:
                if isinstance(c, ClassM):
                    return Bound(c.f, v)
                if isinstance(c, StaticM):
                    return c.f
                if isinstance(c, ValidatorVal):
                    return Bound(c.f, v)
                return c
            if name == '__new__':
                return Builtin('object.__new__', lambda I, a, k: Obj(a[0]))
            if name == '__init_subclass__':
                return Builtin('object.__init_subclass__', lambda I, a, k: None)
            if name in ('__init__', '__setattr__', '__eq__', '__new__', '__getattribute__', '__str__', '__repr__', '__hash__'):
                return self.getattr(PyClass(object), name)
            if v.pyd is not None and name == '__fields__':
                return ADict({n: Sym(('field', v.name, n)) for n in self.pyd_fields(v)})
            self.raise_('AttributeError', "type object '%s' has no attribute '%s'" % (v.name, name))
        if isinstance(v, ModuleVal):
            if name in v.ns:
                return v.ns[name]
            if v.name + '.' + name in self.prog.modules:
                return self.module(v.name + '.' + name)
            self.raise_('AttributeError', "module '%s' has no attribute '%s'" % (v.name, name))
        if isinstance(v, ExtRef):
            return self.extref(v.path + '.' + name)
        if isinstance(v, SuperVal):
            c = self.class_lookup(self.type_of(v.self) if not isinstance(v.self, ClassVal) else v.self, name, after=v.cls)
            if c is not _MISSING:
                if isinstance(c, PropVal):
                    return self.call(c.fget, [v.self], {})
                return self.bind(c, v.self, cls=v.self if isinstance(v.self, ClassVal) else None)
            if name == '__new__':
                return Builtin('object.__new__', lambda I, a, k: Obj(a[0]))
            if name == '__init_subclass__':
                return Builtin('object.__init_subclass__', lambda I, a, k: None)
            if name in ('__init__', '__setattr__', '__eq__', '__hash__', '__str__', '__repr__', '__new__'):
                return Bound(self.getattr(PyClass(object), name), v.self)
            self.raise_('AttributeError', "'super' object has no attribute '%s'" % name)
        if isinstance(v, Sym):
            if v.meta and 'getattr' in v.meta:
                r = v.meta['getattr'](self, v, name)
                if r is not _MISSING:
                    return r
            if v.typ is not None and isinstance(v.typ, ClassVal):
                c = self.class_lookup(v.typ, name)
                if c is not _MISSING:
                    return self.bind(c, v)
            return Sym(('attr', v.key, name))
        from . import stdlib
        return stdlib.const_attr(self, v, name)

    def mangle(self, f, name):
        if f.cls_name and name.startswith('__') and not name.endswith('__'):
            return '_%s%s' % (f.cls_name.lstrip('_'), name)
        return name

    def setattr(self, v, name, val):
        v = self.force(v)
        if isinstance(v, Obj):
            c = self.class_lookup(v.cls, name)
            if isinstance(c, PropVal):
                if c.fset is None:
                    self.raise_('AttributeError', "can't set attribute")
                self.call(c.fset, [v, val], {})
                return
            if isinstance(v.cls, ClassVal) and c is _MISSING or not isinstance(c, PropVal):
                sm = self.class_lookup(v.cls, '__setattr__')
                if sm is not _MISSING:
                    self.call(self.bind(sm, v), [name, val], {})
                    return
            if isinstance(v.cls, ClassVal) and v.cls.pyd is not None:
                val = self.pyd_assign(v, name, val)
            hook = v.data.get('setattr')
            if hook is not None:
                hook(self, v, name, val)
            self.event('set', obj=v, name=name, value=val, old=v.fields.get(name, _MISSING))
            v.fields[name] = val
            return
        if isinstance(v, ClassVal):
            self.event('setcls', cls=v, name=name, value=val)
            v.ns[name] = val
            return
        if isinstance(v, ModuleVal):
            v.ns[name] = val
            return
        if isinstance(v, (Func, Builtin)):
            v.attrs[name] = val
            return
        if isinstance(v, Sym):
            self.event('set', obj=v, name=name, value=val, old=_MISSING)
            if v.meta is not None and 'setattr' in v.meta:
                v.meta['setattr'](self, v, name, val)
            return
        if isinstance(v, ExtRef):
            self.event('set', obj=v, name=name, value=val, old=_MISSING)
            return
        self.raise_('AttributeError', 'cannot set attribute %s' % name)

    def delattr(self, v, name):
        v = self.force(v)
        if isinstance(v, Obj):
            if name in v.fields:
                del v.fields[name]
                self.event('del', obj=v, name=name)
                return
            self.raise_('AttributeError', name)
        if isinstance(v, Sym):
            self.event('del', obj=v, name=name)
            return
        if isinstance(v, ClassVal) and name in v.ns:
            del v.ns[name]
            return
        self.raise_('AttributeError', name)

    # ---------------------------------------------------------------- calls
    def call(self, fn, args, kwargs):
        fn = self.force(fn)
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Unsupported('step budget exceeded')
        if isinstance(fn, Bound):
            return self.call(fn.func, [fn.self] + list(args), kwargs)
        if isinstance(fn, Func):
            return self.call_func(fn, list(args), kwargs)
        if isinstance(fn, Builtin):
            return fn.fn(self, list(args), kwargs)
        if isinstance(fn, Partial):
            return self.call(fn.func, list(fn.args) + list(args), {**fn.kwargs, **kwargs})
        if isinstance(fn, StaticM):
            return self.call(fn.f, args, kwargs)
        if isinstance(fn, ClassVal):
            return self.instantiate(fn, list(args), kwargs)
        if isinstance(fn, PyClass):
            from . import stdlib
            return stdlib.call_pyclass(self, fn, list(args), kwargs)
        if isinstance(fn, Obj):
            m = self.class_lookup(fn.cls, '__call__')
            if m is not _MISSING:
                return self.call(self.bind(m, fn), args, kwargs)
            self.raise_('TypeError', "'%s' object is not callable" % fn.cls.name)
        if isinstance(fn, ExtRef):
            self.event('extcall', path=fn.path, args=tuple(args), kwargs=dict(kwargs))
            return Sym(('extcall', fn.path) + tuple(key_of(a) for a in args)
                       + tuple((k, key_of(v)) for k, v in sorted(kwargs.items())) + (self.fresh(fn.path),))
        if isinstance(fn, Sym):
            if fn.meta and 'call' in fn.meta:
                return fn.meta['call'](self, fn, list(args), kwargs)
            self.event('symcall', fn=fn, args=tuple(args), kwargs=dict(kwargs))
            return Sym(('call', fn.key) + tuple(key_of(a) for a in args)
                       + tuple((k, key_of(v)) for k, v in sorted(kwargs.items())) + (self.fresh('c'),))
        if isinstance(fn, ModuleVal):
            self.raise_('TypeError', 'module is not callable')
        self.raise_('TypeError', '%s is not callable' % short(fn))

    def callm(self, obj, name, *args, **kwargs):
        return self.call(self.getattr(obj, name), list(args), kwargs)

    def call_func(self, fn, args, kwargs):
        stub = self.stubs.get(fn.qualname)
        if stub is not None:
            r = stub(self, fn, args, kwargs)
            if r is not _MISSING:
                return r
        if isinstance(fn.node, ast.AsyncFunctionDef) and not self.is_generator(fn):
            return Coro(fn, args, kwargs)
        if self.is_generator(fn):
            fr = self.make_frame(fn, args, kwargs)
            return AIter(self._run_generator(fn, fr))
        return self.run_func(fn, args, kwargs)

    def is_generator(self, fn):
        if fn.is_gen is None:
            fn.is_gen = not isinstance(fn.node, ast.Lambda) and _has_yield(fn.node.body)
        return fn.is_gen

    def _run_generator(self, fn, fr):
        """Values of a generator: its body is evaluated up to the next yield when a value is asked for."""
        ch = _Channel(self, fn, fr)
        self.channels.append(ch)
        while True:
            v = ch.resume()
            if v is _MISSING:
                return ch.ret
            ch.sent = yield v

    def await_(self, v):
        v = self.force(v)
        if isinstance(v, Coro):
            if v.done:
                self.raise_('RuntimeError', 'cannot reuse already awaited coroutine')
            v.done = True
            return self.run_func(v.func, v.args, v.kwargs)
        if isinstance(v, Obj):
            m = self.class_lookup(v.cls, '__await__')
            if m is not _MISSING:
                return self.call(self.bind(m, v), [], {})
            self.raise_('TypeError', "object can't be used in 'await' expression")
        if isinstance(v, Sym):
            self.event('await', value=v)
            return Sym(('await', v.key))
        self.raise_('TypeError', "object %s can't be used in 'await' expression" % short(v))

    def enter(self, fn, fr):
        self.depth += 1
        if self.depth > self.MAX_DEPTH:
            self.depth -= 1
            raise Unsupported('call depth exceeded in %s' % fn.qualname)
        self.inlined.add(fn.qualname)
        self.frames.append(fr)

    def leave(self):
        self.frames.pop()
        self.depth -= 1

    def make_frame(self, fn, args, kwargs):
        fr = Frame(fn.module, parent=fn.closure, func=fn, cls_name=fn.cls_name)
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        npos = len(pos)
        vals = {}
        given = list(args)
        for n, v in zip(pos, given):
            vals[n] = v
        extra = given[npos:]
        if extra and not a.vararg:
            self.raise_('TypeError', '%s() takes %d positional arguments but %d were given' % (fn.name, npos, len(given)))
        kwrest = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        posonly = {x.arg for x in a.posonlyargs}
        for k, v in kwargs.items():
            if (k in pos and k not in posonly) or k in kwonly:
                if k in vals:
                    self.raise_('TypeError', "%s() got multiple values for argument '%s'" % (fn.name, k))
                vals[k] = v
            elif a.kwarg:
                kwrest[k] = v
            else:
                self.raise_('TypeError', "%s() got an unexpected keyword argument '%s'" % (fn.name, k))
        nd = len(fn.defaults)
        for i, n in enumerate(pos):
            if n not in vals:
                j = i - (npos - nd)
                if j >= 0:
                    vals[n] = fn.defaults[j]
                else:
                    self.raise_('TypeError', "%s() missing required argument: '%s'" % (fn.name, n))
        for n in kwonly:
            if n not in vals:
                if n in fn.kw_defaults:
                    vals[n] = fn.kw_defaults[n]
                else:
                    self.raise_('TypeError', "%s() missing required keyword argument: '%s'" % (fn.name, n))
        if a.vararg:
            vals[a.vararg.arg] = tuple(extra)
        if a.kwarg:
            vals[a.kwarg.arg] = ADict(kwrest)
        fr.locals = vals
        if pos:
            fr.self_val = vals[pos[0]]
        elif a.vararg and extra:
            fr.self_val = extra[0]
        return fr

    def run_func(self, fn, args, kwargs):
        fr = self.make_frame(fn, args, kwargs)
        self.enter(fn, fr)
        fr.node = fn.node
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.eval(fn.node.body, fr)
            try:
                self.block(fn.node.body, fr)
            except ReturnSig as r:
                return r.v
            return None
        finally:
            self.leave()

    def instantiate(self, cls, args, kwargs):
        ctor = self.ext.get('%s.__call__' % cls.path) if cls.ext else None
        if ctor is not None:
            return ctor.fn(self, [cls] + args, kwargs)
        if cls.enum is not None:
            for m in cls.enum.values():
                if self.eq(m.fields['value'], args[0]) or m is self.force(args[0]):
                    return m
            self.raise_('ValueError', '%s is not a valid %s' % (short(args[0]), cls.name))
        for b in self.mro(cls):
            node = getattr(b, 'node', None)
            for kw in (node.keywords if isinstance(node, ast.ClassDef) else ()):
                if kw.arg == 'metaclass' and not (isinstance(kw.value, ast.Name) and kw.value.id == 'ABCMeta'):
                    raise Unsupported('class %s with a metaclass' % b.name)
        o = Obj(cls)
        new = self.class_lookup(cls, '__new__')
        if isinstance(new, StaticM):
            new = new.f
        if isinstance(new, Func):
            o = self.call(new, [cls] + list(args), kwargs)
            if not (isinstance(o, Obj) and isinstance(o.cls, ClassVal) and cls in self.mro(o.cls)):
                return o
        init = self.class_lookup(cls, '__init__')
        dc = self._dc_init_owner(cls)
        if dc is not None:
            self.dc_init(o, dc, args, kwargs)
        elif init is not _MISSING:
            self.call(self.bind(init, o), args, kwargs)
        elif cls.pyd is not None:
            self.pyd_init(o, kwargs)
        elif args or kwargs:
            if any(isinstance(b, ExtRef) for b in self.mro(cls)):
                o.lazy = True
            elif any(isinstance(b, PyClass) and issubclass(b.t, BaseException) for b in self.mro(cls)):
                o.fields['args'] = tuple(args)
            elif any(isinstance(b, PyClass) and b.t in (dict, list, set, tuple, str, int, float) for b in self.mro(cls)):
                raise Unsupported('%s extends a builtin type' % cls.name)
            else:
                if not isinstance(new, Func):
                    self.raise_('TypeError', '%s() takes no arguments' % cls.name)
        return o

    # ---------------------------------------------------------------- dataclasses
    def _dc_eq_owner(self, cls):
        """The dataclass whose generated __eq__ applies, if any."""
        for c in self.mro(cls):
            if isinstance(c, ClassVal):
                if '__eq__' in c.ns:
                    return None
                if c.dataclass is not None and c.dataclass.get('eq', True):
                    return c
        return None

    def _dc_init_owner(self, cls):
        for c in self.mro(cls):
            if not isinstance(c, ClassVal):
                continue
            if '__init__' in c.ns:
                return None
            if c.dataclass is not None and c.dataclass.get('init', True):
                return c
        return None

    def dc_fields(self, cls):
        out = {}
        for c in reversed(self.mro(cls)):
            if isinstance(c, ClassVal) and c.dataclass is not None:
                for n, ann in c.annotations.items():
                    if _is_classvar(ann):
                        continue
                    out.pop(n, None) if False else None
                    out[n] = c.ns.get(n, _MISSING)
        return list(out.items())

    def dc_init(self, o, owner, args, kwargs):
        fields = self.dc_fields(owner)
        names = [n for n, _ in fields]
        vals = {}
        if len(args) > len(names):
            self.raise_('TypeError', '__init__() takes too many positional arguments')
        for n, v in zip(names, args):
            vals[n] = v
        for k, v in kwargs.items():
            if k not in names or k in vals:
                self.raise_('TypeError', "__init__() got an unexpected keyword argument '%s'" % k)
            vals[k] = v
        for n, dflt in fields:
            if n not in vals:
                if dflt is _MISSING:
                    self.raise_('TypeError', "__init__() missing required argument '%s'" % n)
                if isinstance(dflt, FieldInfo):
                    vals[n] = self.call(dflt.factory, [], {}) if dflt.factory is not None else dflt.default
                else:
                    vals[n] = dflt
        for n in names:
            o.fields[n] = vals[n]
        pi = self.class_lookup(o.cls, '__post_init__')
        if pi is not _MISSING:
            self.call(self.bind(pi, o), [], {})

    # ---------------------------------------------------------------- pydantic (v1) models
    def pyd_setup(self, cls):
        own = {}
        for n, ann in cls.annotations.items():
            if _is_classvar(ann):
                continue
            own[n] = ann
        conf = cls.ns.get('Config')
        defaults = {}
        for n in list(cls.ns):
            v = cls.ns[n]
            if n.startswith('__') or n == 'Config':
                continue
            if isinstance(v, (Func, PropVal, StaticM, ClassM, ValidatorVal, Builtin, ClassVal)) and n not in cls.annotations:
                continue
            if n in cls.annotations and _is_classvar(cls.annotations[n]):
                continue
            defaults[n] = v
            own.setdefault(n, None)
            del cls.ns[n]
        cls.pyd = {'own': own, 'defaults': defaults}

    def pyd_fields(self, cls):
        c = self.pf_cache.get(id(cls))
        if c is not None and c[0] is cls:
            return c[1]
        out = self._pyd_fields(cls)
        self.pf_cache[id(cls)] = (cls, out)
        return out

    pf_cache = {}

    def _pyd_fields(self, cls):
        out = {}
        for c in reversed(self.mro(cls)):
            if isinstance(c, ClassVal) and c.pyd is not None:
                for n, ann in c.pyd['own'].items():
                    if n in c.pyd['defaults']:
                        d = c.pyd['defaults'][n]
                        if not isinstance(d, FieldInfo):
                            d = FieldInfo(default=d)
                    else:
                        d = FieldInfo(default=None if _is_optional(ann) else ...)
                    if n.startswith('_'):
                        d = FieldInfo(d.default if d.default is not ... else _MISSING, d.factory, True)
                    if d.default is ... and d.factory is None and _is_optional(ann):
                        d = FieldInfo(default=None)
                    out[n] = d
        return out

    def pyd_validators(self, cls, field):
        out = []
        seen = set()
        for c in reversed(self.mro(cls)):
            if isinstance(c, ClassVal):
                for n, v in c.ns.items():
                    if isinstance(v, ValidatorVal) and not v.root and (field in v.fields or '*' in v.fields):
                        if n not in seen:
                            out.append(v)
                        seen.add(n)
        return out

    def pyd_root_validators(self, cls, pre):
        return [v for c in reversed(self.mro(cls)) if isinstance(c, ClassVal)
                for v in c.ns.values() if isinstance(v, ValidatorVal) and v.root and v.pre == pre]

    def pyd_call_validator(self, vd, cls, val, values):
        f = vd.f
        a = f.node.args
        names = [x.arg for x in a.args][2:] + [x.arg for x in a.kwonlyargs]
        kw = {}
        if 'values' in names or a.kwarg:
            kw['values'] = values
        if 'config' in names:
            kw['config'] = Sym('pydantic.config')
        if 'field' in names:
            kw['field'] = Sym('pydantic.field')
        return self.call(f, [cls, val], kw)

    def pyd_validate(self, cls, name, val, values, given):
        for pre in (True, False):
            for vd in self.pyd_validators(cls, name):
                if vd.pre == pre and (given or vd.always):
                    val = self.pyd_call_validator(vd, cls, val, values)
        return val

    def pyd_init(self, o, kwargs):
        cls = o.cls
        vals = ADict(dict(kwargs))
        try:
            for vd in self.pyd_root_validators(cls, True):
                vals = self.call(vd.f, [cls, vals], {})
            kw = vals.d
            values = ADict({})
            fields = self.pyd_fields(cls)
            for n, fi in fields.items():
                if fi.private:
                    continue
                given = n in kw
                if given:
                    v = kw[n]
                else:
                    v = self.field_default(fi, n, cls)
                v = self.pyd_validate(cls, n, v, values, given)
                values.d[n] = v
        except AbsRaise as e:
            if any(self.exc_is(e.exc, t) for t in ('ValueError', 'TypeError', 'AssertionError')):
                x = self.make_exc(self.ext['pydantic.ValidationError'], (e.exc,))
                x.data['origin'] = e
                raise AbsRaise(x, e.loc)
            raise
        for vd in self.pyd_root_validators(cls, False):
            values = self.call(vd.f, [cls, values], {})
        for n, fi in fields.items():
            if fi.private and n not in o.fields:
                if fi.default is _MISSING and fi.factory is None:
                    continue
                o.fields[n] = self.field_default(fi, n, cls)
        o.fields.update(values.d)

    def field_default(self, fi, n, cls):
        if fi.factory is not None:
            return self.call(fi.factory, [], {})
        if fi.default is ...:
            self.raise_('ValueError', 'field required: %s' % n)
        return self.deepcopy(fi.default)

    def pyd_assign(self, o, name, val):
        fields = self.pyd_fields(o.cls)
        fi = fields.get(name)
        if fi is None or fi.private:
            return val
        va = None
        for c in self.mro(o.cls):
            if isinstance(c, ClassVal) and isinstance(c.ns.get('Config'), ClassVal):
                va = c.ns['Config'].ns.get('validate_assignment')
                if va is not None:
                    break
        if va:
            values = ADict({k: v for k, v in o.fields.items() if k != name and k in fields and not fields[k].private})
            try:
                val = self.pyd_validate(o.cls, name, val, values, True)
            except AbsRaise as e:
                if any(self.exc_is(e.exc, t) for t in ('ValueError', 'TypeError', 'AssertionError')):
                    x = self.make_exc(self.ext['pydantic.ValidationError'], (e.exc,))
                    x.data['origin'] = e
                    raise AbsRaise(x, e.loc)
                raise
        return val

    # ---------------------------------------------------------------- copies
    def deepcopy(self, v, memo=None):
        memo = {} if memo is None else memo
        if isinstance(v, (AList, ADict, ASet, Obj)):
            if id(v) in memo:
                return memo[id(v)]
        if isinstance(v, AList):
            n = AList()
            memo[id(v)] = n
            n.items = [self.deepcopy(x, memo) for x in v.items]
            return n
        if isinstance(v, ADict):
            n = ADict({})
            n.factory = v.factory
            memo[id(v)] = n
            n.d = {k: self.deepcopy(x, memo) for k, x in v.d.items()}
            return n
        if isinstance(v, ASet):
            n = ASet(frozen=v.frozen)
            memo[id(v)] = n
            n.items = [self.deepcopy(x, memo) for x in v.items]
            return n
        if isinstance(v, tuple):
            return tuple(self.deepcopy(x, memo) for x in v)
        if isinstance(v, Obj) and isinstance(v.cls, ClassVal) and not v.cls.ext:
            n = Obj(v.cls, label=v.label + "'", lazy=v.lazy)
            n.data = v.data
            memo[id(v)] = n
            n.fields = {k: self.deepcopy(x, memo) for k, x in v.fields.items()}
            return n
        return v

    def copy(self, v):
        v = self.force(v)
        if isinstance(v, AList):
            return AList(v.items)
        if isinstance(v, ADict):
            n = ADict(dict(v.d))
            n.factory = v.factory
            return n
        if isinstance(v, ASet):
            return ASet(v.items, v.frozen)
        if isinstance(v, Obj):
            m = self.class_lookup(v.cls, '__copy__')
            if m is not _MISSING:
                return self.call(self.bind(m, v), [], {})
            n = Obj(v.cls, lazy=v.lazy, label='copy(%s)' % v.label)
            n.data = dict(v.data)
            n.data['copied_from'] = v
            gs = self.class_lookup(v.cls, '__getstate__')
            if gs is not _MISSING and not (isinstance(v.cls, ClassVal) and v.cls.pyd is not None):
                st = self.call(self.bind(gs, v), [], {})
                ss = self.class_lookup(v.cls, '__setstate__')
                if ss is not _MISSING:
                    self.call(self.bind(ss, n), [st], {})
                elif isinstance(st, ADict):
                    n.fields = dict(st.d)
                else:
                    n.fields = dict(v.fields)
                return n
            n.fields = dict(v.fields)
            return n
        return v

    # ---------------------------------------------------------------- statements
    def block(self, stmts, f):
        for s in stmts:
            self.stmt(s, f)

    def stmt(self, s, f):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Unsupported('step budget exceeded')
        prev = f.node
        f.node = s
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at %s' % (type(s).__name__, self.loc()))
        m(s, f)

    def st_Expr(self, s, f):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, f)

    def st_Pass(self, s, f):
        pass

    def st_Assert(self, s, f):
        if not self.truth(self.eval(s.test, f)):
            self.raise_('AssertionError')

    def st_Return(self, s, f):
        raise ReturnSig(self.eval(s.value, f) if s.value is not None else None)

    def st_Break(self, s, f):
        raise BreakSig()

    def st_Continue(self, s, f):
        raise ContinueSig()

    def st_Global(self, s, f):
        f.globals_.update(s.names)

    def st_Nonlocal(self, s, f):
        f.nonlocals.update(s.names)

    def st_Import(self, s, f):
        for a in s.names:
            top = a.name.split('.')[0]
            if top == self.prog.pkg:
                self.module(a.name)
                v = self.module(a.name if a.asname else top)
            else:
                v = self.extref(a.name if a.asname else top)
            self.set_name(f, a.asname or top, v)

    def st_ImportFrom(self, s, f):
        self.import_from(f, s.module, s.level, s.names)

    def st_If(self, s, f):
        if self.truth(self.eval(s.test, f)):
            self.block(s.body, f)
        else:
            self.block(s.orelse, f)

    def aiterate(self, v):
        """Values of an asynchronous iteration."""
        v = self.force(v)
        m = self.class_lookup(v.cls, '__aiter__') if isinstance(v, Obj) else _MISSING
        if m is _MISSING:
            return self.iterate(v)
        it = self.force(self.call(self.bind(m, v), [], {}))
        return self._iter_next(it, '__anext__', 'StopAsyncIteration') if isinstance(it, Obj) else self.iterate(it)

    def _iter_next(self, it, name, stop):
        m = self.bind(self.class_lookup(it.cls, name), it)
        while True:
            try:
                x = self.call(m, [], {})
                if name == '__anext__':
                    x = self.await_(x)
            except AbsRaise as e:
                if self.exc_is(e.exc, stop):
                    return
                raise
            yield x

    def st_For(self, s, f):
        it = (self.aiterate if isinstance(s, ast.AsyncFor) else self.iterate)(self.eval(s.iter, f))
        broke = False
        for x in it:
            f.node = s
            self.assign(s.target, x, f)
            try:
                self.block(s.body, f)
            except BreakSig:
                broke = True
                break
            except ContinueSig:
                continue
        if not broke:
            self.block(s.orelse, f)

    st_AsyncFor = st_For

    def st_While(self, s, f):
        n = 0
        while True:
            before = self.pos
            f.node = s
            c = self.truth(self.eval(s.test, f))
            if not c:
                self.block(s.orelse, f)
                return
            n += 1
            if n > self.while_bound(s, f):
                self.loop_bound_hit = True
                raise PathAbort('loop bound')
            try:
                self.block(s.body, f)
            except BreakSig:
                return
            except ContinueSig:
                continue

    def while_bound(self, s, f):
        return 80

    def st_With(self, s, f):
        self._with(s.items, s.body, f)

    st_AsyncWith = st_With

    def _with(self, items, body, f):
        if not items:
            self.block(body, f)
            return
        it = items[0]
        cm = self.force(self.eval(it.context_expr, f))
        if isinstance(cm, GenCM):
            self._with_gencm(cm, it, items, body, f)
            return
        if isinstance(cm, Obj):
            en = self.class_lookup(cm.cls, '__enter__')
            ex = self.class_lookup(cm.cls, '__exit__')
            if en is _MISSING:
                en = self.class_lookup(cm.cls, '__aenter__')
                ex = self.class_lookup(cm.cls, '__aexit__')
            if en is _MISSING or ex is _MISSING:
                if not cm.lazy:
                    self.raise_('AttributeError', '__enter__')
                val = Sym(('enter', key_of(cm)))
                self.event('enter', cm=cm)
                ex = None
            else:
                val = self.call(self.bind(en, cm), [], {})
                if isinstance(val, Coro):
                    val = self.await_(val)
        else:
            self.event('enter', cm=cm)
            val = Sym(('enter', key_of(cm)))
            ex = None
        if it.optional_vars is not None:
            self.assign(it.optional_vars, val, f)
        pend = None
        try:
            self._with(items[1:], body, f)
        except (AbsRaise, ReturnSig, BreakSig, ContinueSig, TunnelSig) as e:
            pend = e
        if ex is None:
            self.event('exit', cm=cm)
            r = None
        else:
            if isinstance(pend, AbsRaise):
                a = [pend.exc.cls, pend.exc, Sym('traceback', meta={'truthy': True, 'notnone': True})]
            else:
                a = [None, None, None]
            r = self.call(self.bind(ex, cm), a, {})
            if isinstance(r, Coro):
                r = self.await_(r)
        if isinstance(pend, AbsRaise) and r is not None and self.truth(r):
            return
        if pend is not None:
            raise pend

    def _with_gencm(self, cm, it, items, body, f):
        fr = self.make_frame(cm.func, cm.args, cm.kwargs)
        entered = []

        def on_yield(val):
            if entered:
                self.raise_('RuntimeError', "generator didn't stop")
            entered.append(1)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, val, f)
            top = self.frames
            self.frames = top[:-1]
            try:
                self._with(items[1:], body, f)
            except (ReturnSig, BreakSig, ContinueSig) as e:
                raise TunnelSig(e)
            finally:
                self.frames = top
        fr.on_yield = on_yield
        self.enter(cm.func, fr)
        fr.node = cm.func.node
        try:
            self.block(cm.func.node.body, fr)
        except ReturnSig:
            pass
        except TunnelSig as e:
            raise e.sig
        finally:
            self.leave()
        if not entered:
            self.raise_('RuntimeError', "generator didn't yield")

    def st_Raise(self, s, f):
        if s.exc is None:
            if not self.exc_stack:
                self.raise_('RuntimeError', 'No active exception to reraise')
            raise AbsRaise(self.exc_stack[-1], self.loc())
        v = self.force(self.eval(s.exc, f))
        cause = self.eval(s.cause, f) if s.cause is not None else None
        if isinstance(v, (ClassVal, PyClass)):
            v = self.call(v, [], {})
        if isinstance(v, Sym):
            if v.meta and 'exc' in v.meta:
                v = v.meta['exc']
            else:
                v = Obj(PyClass(Exception), {'args': ()}, label='exc(%s)' % pretty(v.key))
        if not isinstance(v, Obj) or not self.isinstance(v, PyClass(BaseException)):
            self.raise_('TypeError', 'exceptions must derive from BaseException')
        if s.cause is not None:
            v.fields['__cause__'] = cause
        raise AbsRaise(v, self.loc())

    def st_Try(self, s, f):
        pend = None
        try:
            try:
                self.block(s.body, f)
            except AbsRaise as e:
                handled = False
                for h in s.handlers:
                    if h.type is None or self.exc_match(e.exc, self.eval(h.type, f)):
                        handled = True
                        f.node = h
                        if h.name:
                            self.set_name(f, h.name, e.exc)
                        self.exc_stack.append(e.exc)
                        try:
                            self.block(h.body, f)
                        finally:
                            self.exc_stack.pop()
                            if h.name:
                                f.locals.pop(h.name, None)
                        break
                if not handled:
                    raise
            else:
                self.block(s.orelse, f)
        except (AbsRaise, ReturnSig, BreakSig, ContinueSig, TunnelSig) as e:
            pend = e
        if s.finalbody:
            if isinstance(pend, AbsRaise):
                self.exc_stack.append(pend.exc)
                try:
                    self.block(s.finalbody, f)
                finally:
                    self.exc_stack.pop()
            else:
                self.block(s.finalbody, f)
        if pend is not None:
            raise pend

    def st_Delete(self, s, f):
        for t in s.targets:
            self.del_target(t, f)

    def del_target(self, t, f):
        if isinstance(t, ast.Name):
            if t.id in f.locals:
                del f.locals[t.id]
            elif t.id in f.module.ns:
                del f.module.ns[t.id]
            else:
                self.raise_('NameError', t.id)
        elif isinstance(t, ast.Attribute):
            self.delattr(self.eval(t.value, f), self.mangle(f, t.attr))
        elif isinstance(t, ast.Subscript):
            from . import stdlib
            stdlib.delitem(self, self.eval(t.value, f), self.eval(t.slice, f))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.del_target(x, f)

    def st_Assign(self, s, f):
        v = self.eval(s.value, f)
        for t in s.targets:
            self.assign(t, v, f)

    def st_AnnAssign(self, s, f):
        if f.is_class and isinstance(s.target, ast.Name):
            f.locals.setdefault('__annotations__', {})[s.target.id] = s.annotation
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, f), f)

    def st_AugAssign(self, s, f):
        from . import stdlib
        t = s.target
        opn = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.get_name(f, t.id)
            v = stdlib.augop(self, opn, cur, self.eval(s.value, f))
            self.set_name(f, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, f)
            n = self.mangle(f, t.attr)
            cur = self.getattr(o, n)
            self.setattr(o, n, stdlib.augop(self, opn, cur, self.eval(s.value, f)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, f)
            k = self.eval(t.slice, f)
            cur = stdlib.getitem(self, o, k)
            stdlib.setitem(self, o, k, stdlib.augop(self, opn, cur, self.eval(s.value, f)))

    def assign(self, t, v, f):
        if isinstance(t, ast.Name):
            self.set_name(f, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, f), self.mangle(f, t.attr), v)
        elif isinstance(t, ast.Subscript):
            from . import stdlib
            stdlib.setitem(self, self.eval(t.value, f), self.eval(t.slice, f), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.force(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if isinstance(v, Sym) and not (v.meta and 'iter' in v.meta) and not star:
                items = [Sym(('item', v.key, i)) for i in range(len(t.elts))]
            else:
                items = list(self.iterate(v))
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.raise_('ValueError', 'not enough values to unpack')
                mid = items[i:len(items) - after]
                items = items[:i] + [AList(mid)] + items[len(items) - after:]
            if len(items) != len(t.elts):
                self.raise_('ValueError', 'unpack mismatch')
            for e, x in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, f)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, f)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    # definitions
    def make_func(self, node, f, name):
        cls_name = f.cls_name
        owner = f.func.qualname if f.func else f.module.name
        qn = '%s.%s' % (f.locals['__qualname__'] if f.is_class else owner, name)
        closure = f
        while closure is not None and closure.is_class:
            closure = closure.parent
        if closure is not None and closure.func is None and closure.locals is closure.module.ns:
            closure = None
        fn = Func(node, f.module, closure, name, qn, cls_name)
        a = node.args
        fn.defaults = [self.eval(d, f) for d in a.defaults]
        fn.kw_defaults = {x.arg: self.eval(d, f) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        fn.def_frame_func = f.func
        if not f.is_class and f.func is not None:
            fn.cls = f.func.cls
            fn.outer_self = f.self_val
        return fn

    def st_FunctionDef(self, s, f):
        fn = self.make_func(s, f, s.name)
        v = fn
        for d in reversed(s.decorator_list):
            dec = self.eval(d, f)
            v = self.apply_decorator(dec, v, f)
        self.set_name(f, s.name, v)

    st_AsyncFunctionDef = st_FunctionDef

    def apply_decorator(self, dec, v, f):
        dec = self.force(dec)
        if isinstance(dec, ExtRef) and dec.path in ('abc.abstractmethod', 'typing.overload', 'typing.no_type_check'):
            return v
        return self.call(dec, [v], {})

    def st_ClassDef(self, s, f):
        bases = [self.eval(b, f) for b in s.bases]
        fr = Frame(f.module, parent=f if (f.func is not None or f.is_class) else None, func=f.func, cls_name=s.name, is_class=True)
        owner = f.func.qualname if f.func else (f.locals.get('__qualname__') if f.is_class else f.module.name)
        qn = '%s.%s' % (owner, s.name)
        fr.locals['__qualname__'] = qn
        fr.self_val = f.self_val
        fr.node = s
        self.frames.append(fr)
        try:
            self.block(s.body, fr)
        finally:
            self.frames.pop()
        ns = fr.locals
        ns.pop('__qualname__')
        refs = {b.path for b in map(self.force, bases) if isinstance(b, ExtRef)}
        if 'typing.NamedTuple' in refs:
            bases = [b for b in bases if not isinstance(b, ExtRef)]
        cls = ClassVal(s.name, bases, ns, module=f.module, node=s, path=qn)
        for v in ns.values():
            self._set_owner(v, cls)
        if 'typing.NamedTuple' in refs:
            self.ext['collections.namedtuple'].fn(self, [cls], {})
        if refs & {'enum.Enum', 'enum.IntEnum', 'enum.StrEnum', 'enum.Flag', 'enum.IntFlag'} or any(isinstance(b, ClassVal) and b.enum is not None for b in bases):
            self.make_enum(cls, refs, bases)
        if any(isinstance(b, ClassVal) and b.path == 'pydantic.BaseModel' for b in self.mro(cls)):
            self.pyd_setup(cls)
        isub = self.class_lookup(cls, '__init_subclass__', after=cls)
        if isinstance(isub, ClassM):
            isub = isub.f
        if isinstance(isub, Func):
            self.call(isub, [cls], {k.arg: self.eval(k.value, f) for k in s.keywords if k.arg and k.arg != 'metaclass'})
        v = cls
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, f), [v], {})
        self.set_name(f, s.name, v)

    def make_enum(self, cls, refs, bases):
        if refs & {'enum.Flag', 'enum.IntFlag'}:
            raise Unsupported('enum flags')
        cls.enum = {}
        mixed = refs & {'enum.IntEnum', 'enum.StrEnum'} or any(isinstance(b, PyClass) for b in bases)
        for n, v in list(cls.ns.items()):
            v = self.force(v)
            if n.startswith('_') or isinstance(v, (Func, StaticM, ClassM, PropVal, CachedProp, ClassVal)):
                continue
            if isinstance(v, Sym) and 'enum.auto' in repr(v.key):
                v = n.lower() if 'enum.StrEnum' in refs else len(cls.enum) + 1
            same = [m for m in cls.enum.values() if self.eq(m.fields['value'], v)]
            m = same[0] if same else Obj(cls, {'name': n, 'value': v, '_name_': n, '_value_': v}, label='%s.%s' % (cls.name, n))
            cls.ns[n] = m
            if not same:
                cls.enum[n] = m
        if mixed:
            val = lambda x: x.fields['value'] if isinstance(x, Obj) and getattr(x.cls, 'enum', None) is not None else x
            cls.ns.setdefault('__eq__', Builtin('__eq__', lambda I, a, k: I.eq(a[0].fields['value'], val(I.force(a[1])))))
            cls.ns.setdefault('__str__', Builtin('__str__', lambda I, a, k: a[0].fields['value']))
            for op in ('lt', 'le', 'gt', 'ge'):
                cls.ns.setdefault('__%s__' % op, Builtin(op, lambda I, a, k, op=op: I.compare(op, a[0].fields['value'], val(I.force(a[1])))))
        cls.ns['__members__'] = ADict(dict(cls.enum))

    def _set_owner(self, v, cls):
        if isinstance(v, Func):
            if v.cls is None:
                v.cls = cls
            if '__wrapped__' in v.attrs:
                self._set_owner(v.attrs['__wrapped__'], cls)
        elif isinstance(v, (StaticM, ClassM, ValidatorVal, CachedProp)):
            self._set_owner(v.f, cls)
        elif isinstance(v, Builtin) and '__wrapped__' in v.attrs:
            self._set_owner(v.attrs['__wrapped__'], cls)
        elif isinstance(v, PropVal):
            self._set_owner(v.fget, cls)
            self._set_owner(v.fset, cls)

    def st_Match(self, s, f):
        subj = self.eval(s.subject, f)
        for c in s.cases:
            if self.match_pattern(c.pattern, subj, f) and (c.guard is None or self.truth(self.eval(c.guard, f))):
                self.block(c.body, f)
                return

    def match_pattern(self, p, v, f):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.eval(p.value, f))
        if isinstance(p, ast.MatchSingleton):
            return self.identical(v, p.value)
        if isinstance(p, ast.MatchOr):
            return any(self.match_pattern(x, v, f) for x in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pattern(p.pattern, v, f):
                return False
            if p.name:
                self.set_name(f, p.name, v)
            return True
        if isinstance(p, ast.MatchClass):
            cls = self.force(self.eval(p.cls, f))
            if not self.isinstance(v, cls):
                return False
            v = self.force(v)
            names = list(p.kwd_attrs)
            pats = list(p.kwd_patterns)
            if p.patterns:
                if isinstance(cls, PyClass):
                    if len(p.patterns) != 1 or not self.match_pattern(p.patterns[0], v, f):
                        return False
                else:
                    args = self.class_lookup(cls, '__match_args__')
                    if args is _MISSING and cls.dataclass is not None:
                        args = tuple(self.dc_fields(cls))
                    if args is _MISSING:
                        raise Unsupported('match pattern')
                    names = list(self.iterate(args))[:len(p.patterns)] + names
                    pats = list(p.patterns) + pats
            for n, x in zip(names, pats):
                try:
                    y = self.getattr(v, n)
                except AbsRaise as e:
                    if self.exc_is(e.exc, 'AttributeError'):
                        return False
                    raise
                if not self.match_pattern(x, y, f):
                    return False
            return True
        if isinstance(p, ast.MatchSequence):
            v = self.force(v)
            if isinstance(v, Sym):
                raise Unsupported('match of an unknown value')
            if not isinstance(v, (tuple, AList)):
                return False
            items = list(v) if isinstance(v, tuple) else list(v.items)
            star = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            if len(items) < len(p.patterns) - len(star) or not star and len(items) != len(p.patterns):
                return False
            if star:
                i, after = star[0], len(p.patterns) - star[0] - 1
                items = items[:i] + [AList(items[i:len(items) - after])] + items[len(items) - after:]
            return all(self.match_pattern(x, y, f) for x, y in zip(p.patterns, items))
        if isinstance(p, ast.MatchStar):
            if p.name:
                self.set_name(f, p.name, v)
            return True
        if isinstance(p, ast.MatchMapping):
            from . import stdlib
            v = self.force(v)
            if isinstance(v, Sym):
                raise Unsupported('match of an unknown value')
            if not isinstance(v, ADict):
                return False
            seen = []
            for k, x in zip(p.keys, p.patterns):
                kk = self.dict_find(v, self.eval(k, f))
                if kk is _MISSING or not self.match_pattern(x, v.d[kk], f):
                    return False
                seen.append(kk)
            if p.rest:
                self.set_name(f, p.rest, ADict({k: x for k, x in v.d.items() if not any(k is y for y in seen)}))
            return True
        raise Unsupported('match pattern')

    # ---------------------------------------------------------------- expressions
    def eval(self, e, f):
        m = EX.get(type(e))
        if m is None:
            m = getattr(Interp, 'ex_' + type(e).__name__, None)
            if m is None:
                raise Unsupported('expression %s' % type(e).__name__)
            EX[type(e)] = m
        return m(self, e, f)

    def ex_Constant(self, e, f):
        return e.value

    def ex_Name(self, e, f):
        return self.get_name(f, e.id)

    def ex_Attribute(self, e, f):
        return self.getattr(self.eval(e.value, f), self.mangle(f, e.attr))

    def ex_Tuple(self, e, f):
        return tuple(self.elts(e.elts, f))

    def ex_List(self, e, f):
        return AList(self.elts(e.elts, f))

    def ex_Set(self, e, f):
        from . import stdlib
        s = ASet()
        for x in self.elts(e.elts, f):
            stdlib.set_add(self, s, x)
        return s

    def elts(self, elts, f):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, f)))
            else:
                out.append(self.eval(x, f))
        return out

    def ex_Dict(self, e, f):
        from . import stdlib
        d = ADict({})
        for k, v in zip(e.keys, e.values):
            if k is None:
                for kk, vv in stdlib.mapping_items(self, self.eval(v, f)):
                    stdlib.dict_set(self, d, kk, vv)
            else:
                kk = self.eval(k, f)
                stdlib.dict_set(self, d, kk, self.eval(v, f))
        return d

    def ex_BoolOp(self, e, f):
        is_and = isinstance(e.op, ast.And)
        for x in e.values[:-1]:
            v = self.eval(x, f)
            v = self.force(v)
            t = self.truth(v)
            if is_and and not t:
                return self.concretize(v, t)
            if not is_and and t:
                return self.concretize(v, t)
        return self.eval(e.values[-1], f)

    def concretize(self, v, t):
        return v

    def ex_UnaryOp(self, e, f):
        from . import stdlib
        v = self.eval(e.operand, f)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        return stdlib.unop(self, type(e.op).__name__, v)

    def ex_BinOp(self, e, f):
        from . import stdlib
        a = self.eval(e.left, f)
        b = self.eval(e.right, f)
        return stdlib.binop(self, type(e.op).__name__, a, b)

    def ex_Compare(self, e, f):
        left = self.eval(e.left, f)
        n = len(e.ops)
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, f)
            v = self.cmp_op(type(op).__name__, left, right)
            if i == n - 1:
                return v
            if not self.truth(v):
                return False
            left = right
        return v

    def cmp_op(self, op, a, b):
        if op == 'Is':
            return self.identical(a, b)
        if op == 'IsNot':
            return not self.identical(a, b)
        if op == 'In':
            return self.contains(a, b)
        if op == 'NotIn':
            return not self.contains(a, b)
        if op == 'Eq':
            return self.eq_val(a, b)
        if op == 'NotEq':
            a = self.force(a)
            if isinstance(a, Obj):
                m = self.class_lookup(a.cls, '__ne__')
                if m is not _MISSING:
                    return self.call(self.bind(m, a), [b], {})
            return not self.eq(a, b)
        return self.compare({'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt', 'GtE': 'ge'}[op], a, b)

    def ex_IfExp(self, e, f):
        return self.eval(e.body if self.truth(self.eval(e.test, f)) else e.orelse, f)

    def ex_NamedExpr(self, e, f):
        v = self.eval(e.value, f)
        g = f
        while getattr(g, 'func', None) is not None and g.node == 'comp':
            g = g.parent
        self.set_name(g, e.target.id, v)
        return v

    def ex_Lambda(self, e, f):
        return self.make_func(e, f, '<lambda>')

    def ex_Await(self, e, f):
        return self.await_(self.eval(e.value, f))

    def ex_Yield(self, e, f):
        g = f
        if f.on_yield is not None:
            f.on_yield(self.eval(e.value, f) if e.value is not None else None)
            return None
        while g is not None and g.yields is None:
            g = g.parent
        if g is None:
            raise Unsupported('yield')
        return g.yields.append(self.eval(e.value, f) if e.value is not None else None)

    def ex_YieldFrom(self, e, f):
        g = f
        while g is not None and g.yields is None:
            g = g.parent
        if g is None:
            raise Unsupported('yield from')
        it = iter(self.iterate(self.eval(e.value, f)))
        try:
            x = next(it)
            while True:
                sent = g.yields.append(x)
                x = it.send(sent) if sent is not None and hasattr(it, 'send') else next(it)
        except StopIteration as stop:
            return stop.value

    def ex_JoinedStr(self, e, f):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.force(self.eval(x.value, f))
                spec = self.eval(x.format_spec, f) if x.format_spec is not None else ''
                conv = {-1: None, 115: 's', 114: 'r', 97: 'a'}[x.conversion]
                if is_concrete(v) and isinstance(spec, str):
                    if conv == 'r':
                        v = repr(v)
                    elif conv == 's':
                        v = str(v)
                    try:
                        parts.append(format(v, spec))
                    except (TypeError, ValueError) as ex:
                        self.raise_(type(ex).__name__, str(ex))
                else:
                    parts.append(Sym(('fmt', key_of(v), conv, key_of(spec))))
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        if not out:
            return ''
        if len(out) == 1 and isinstance(out[0], str):
            return out[0]
        return Sym(('fstr',) + tuple(key_of(p) for p in out), meta={'truthy': True if any(isinstance(p, str) and p for p in out) else None,
                                                                   'notnone': True, 'parts': out,
                                                                   'isinstance': lambda c: isinstance(c, PyClass) and c.t in (str, object)})

    def ex_FormattedValue(self, e, f):
        return self.ex_JoinedStr(ast.JoinedStr(values=[e]), f)

    def ex_Subscript(self, e, f):
        from . import stdlib
        o = self.eval(e.value, f)
        return stdlib.getitem(self, o, self.eval(e.slice, f))

    def ex_Slice(self, e, f):
        g = lambda x: self.force(self.eval(x, f)) if x is not None else None
        return SliceVal(g(e.lower), g(e.upper), g(e.step))

    def ex_Starred(self, e, f):
        raise Unsupported('starred')

    # comprehensions
    def comp_iter(self, gens, f, body):
        """Analyser-side generator over the comprehension."""
        first = (self.aiterate if gens[0].is_async else self.iterate)(self.eval(gens[0].iter, f))
        fr = Frame(f.module, parent=f, func=f.func, cls_name=f.cls_name)
        fr.self_val = f.self_val
        fr.node = 'comp'

        def rec(i, it):
            for x in it:
                self.assign(gens[i].target, x, fr)
                ok = True
                for c in gens[i].ifs:
                    if not self.truth(self.eval(c, fr)):
                        ok = False
                        break
                if not ok:
                    continue
                if i + 1 < len(gens):
                    yield from rec(i + 1, (self.aiterate if gens[i + 1].is_async else self.iterate)(self.eval(gens[i + 1].iter, fr)))
                else:
                    yield body(fr)
        return rec(0, first)

    def ex_ListComp(self, e, f):
        return AList(list(self.comp_iter(e.generators, f, lambda fr: self.eval(e.elt, fr))))

    def ex_GeneratorExp(self, e, f):
        return AIter(self.comp_iter(e.generators, f, lambda fr: self.eval(e.elt, fr)))

    def ex_SetComp(self, e, f):
        from . import stdlib
        s = ASet()
        for x in self.comp_iter(e.generators, f, lambda fr: self.eval(e.elt, fr)):
            stdlib.set_add(self, s, x)
        return s

    def ex_DictComp(self, e, f):
        from . import stdlib
        d = ADict({})
        for k, v in self.comp_iter(e.generators, f, lambda fr: (self.eval(e.key, fr), self.eval(e.value, fr))):
            stdlib.dict_set(self, d, k, v)
        return d

    def ex_Call(self, e, f):
        from . import stdlib
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args and not e.keywords:
            g = f
            while g is not None and g.self_val is None:
                g = g.parent
            fn = f.func
            cls = fn.cls if fn is not None else None
            sv = g.self_val if g is not None else None
            if fn is not None and fn.cls is not None and getattr(fn, 'outer_self', None) is not None and not fn.node.args.args:
                sv = fn.outer_self
            return SuperVal(cls, sv)
        fn = self.eval(e.func, f)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, f)))
            else:
                args.append(self.eval(a, f))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                for kk, vv in stdlib.mapping_items(self, self.eval(k.value, f)):
                    if kk in kwargs:
                        self.raise_('TypeError', "got multiple values for keyword argument '%s'" % (kk,))
                    if not isinstance(kk, str):
                        self.raise_('TypeError', 'keywords must be strings')
                    kwargs[kk] = vv
            else:
                if k.arg in kwargs:
                    self.raise_('TypeError', "got multiple values for keyword argument '%s'" % (k.arg,))
                kwargs[k.arg] = self.eval(k.value, f)
        prev = f.node
        if hasattr(e, 'lineno'):
            f.node = e
        try:
            return self.call(fn, args, kwargs)
        finally:
            f.node = prev


class GenCM:
    """Context manager made by calling a @contextmanager function."""
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class SliceVal:
    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


class UnionVal:
    def __init__(self, items):
        self.items = items


class DictView:
    def __init__(self, I, d, kind):
        self.I = I
        self.d = d
        self.kind = kind

    def snapshot(self):
        if self.kind == 'keys':
            return list(self.d.d)
        if self.kind == 'values':
            return list(self.d.d.values())
        return list(self.d.d.items())


def _has_yield(body):
    st = list(body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


def _is_classvar(ann):
    if ann is None:
        return False
    s = ast.unparse(ann)
    return s.startswith('ClassVar') or s.startswith('typing.ClassVar')


EX = {}


def _is_optional(ann):
    if ann is None:
        return False
    s = ast.unparse(ann).strip("'\"")
    return s.startswith('Optional') or s.startswith('typing.Optional') or s.endswith('| None') or 'None' in s.split('[')[-1].replace(']', '').split(', ') and s.startswith('Union') or s == 'Any'


def explore(I, run, max_paths=20000):
    """Enumerate all paths of run(I).  Yields run's result per completed path."""
    prefix = []
    n = 0
    stats = {'paths': 0, 'aborted': 0, 'undecided': 0}
    while True:
        I.reset(prefix)
        n += 1
        try:
            r = run(I)
            stats['paths'] += 1
            yield r, stats
        except PathAbort:
            stats['aborted'] += 1
        except (ReturnSig, BreakSig, ContinueSig):
            raise
        prefix = I.prefix[:I.pos]
        widths = I.widths[:I.pos]
        while prefix and prefix[-1] + 1 >= widths[len(prefix) - 1]:
            prefix.pop()
        if not prefix:
            return
        prefix[-1] += 1
        if n >= max_paths:
            raise Unsupported('path budget exceeded (%d)' % max_paths)
