"""Functions evaluated both by CPython and by the analyser (tools/selftest.py); none of them is code of the repository."""
import asyncio
import contextlib
import dataclasses
import functools
import itertools
import operator
from collections import defaultdict, deque, Counter, namedtuple, OrderedDict

calls = []


@functools.lru_cache(maxsize=None)
def cached(x, y=1):
    calls.append(x)
    return x + y


class C:
    def __init__(self):
        self.n = 0

    @functools.cached_property
    def value(self):
        self.n += 1
        return self.n

    @functools.lru_cache()
    def m(self, k):
        self.n += k
        return self.n


def t_lru():
    r = [cached(1), cached(1), cached(2, y=3), cached(2, y=3), list(calls)]
    return r


def t_cached_property():
    c = C()
    d = C()
    return [c.value, c.value, d.value, c.n, d.n]


def t_method_cache():
    c = C()
    d = C()
    return [c.m(1), c.m(1), c.m(2), d.m(1), c.n, d.n]


def t_defaultdict():
    d = defaultdict(list)
    for k, v in [('a', 1), ('b', 2), ('a', 3)]:
        d[k].append(v)
    try:
        d2 = dict(d)
        d2['zz']
    except KeyError:
        return [dict(d), 'zz' in d, d.get('q')]


def t_deque():
    d = deque([1, 2, 3], maxlen=3)
    d.append(4)
    d.appendleft(0)
    x = d.popleft()
    d.extend([7, 8, 9, 10])
    return [x, list(d), len(d)]


def t_counter():
    c = Counter(['a', 'b', 'a'])
    c['z'] += 1
    return [c['a'], c['b'], c['z'], c['nope']]


P = namedtuple('P', ['x', 'y'])


def t_namedtuple():
    p = P(1, y=2)
    x, y = p
    q = p._replace(x=5)
    return [x, y, p[0], p.y, tuple(q), p == (1, 2)]


def t_itertools():
    return [list(itertools.zip_longest([1, 2], [3], fillvalue=0)), list(itertools.dropwhile(lambda x: x < 2, [1, 2, 1])),
            list(itertools.starmap(pow, [(2, 3), (3, 2)])), list(itertools.compress('abc', [1, 0, 1])),
            list(itertools.accumulate([1, 2, 3])), [(k, list(g)) for k, g in itertools.groupby([1, 1, 2, 1])],
            list(itertools.chain.from_iterable([[1], [2, 3]])), list(itertools.islice(itertools.cycle([1, 2]), 5)),
            [list(x) for x in itertools.tee([1, 2])], list(itertools.repeat(7, 2))]


def t_operator():
    return [operator.contains([1], 1), operator.is_(None, None), operator.is_not(1, None), operator.truth([]),
            operator.itemgetter(1)([4, 5]), operator.methodcaller('upper')('a'), operator.getitem({'a': 3}, 'a')]


class CM:
    def __init__(self, log, swallow=False):
        self.log, self.swallow = log, swallow

    def __enter__(self):
        self.log.append('enter')
        return self

    def __exit__(self, t, e, tb):
        self.log.append('exit %s' % (t.__name__ if t else None))
        return self.swallow


def t_exitstack():
    log = []
    try:
        with contextlib.ExitStack() as st:
            st.enter_context(CM(log))
            st.callback(log.append, 'cb')
            st.enter_context(CM(log, True))
            raise ValueError('x')
    except ValueError:
        log.append('escaped')
    try:
        with contextlib.ExitStack() as st:
            st.enter_context(CM(log))
            raise ValueError('x')
    except ValueError:
        log.append('escaped')
    with contextlib.nullcontext(4) as v:
        log.append(v)
    return log


def t_changed_size():
    d = {1: 1}
    s = {1}
    out = []
    try:
        for k in d:
            d[2] = 2
    except RuntimeError:
        out.append('dict')
    try:
        for k in s:
            s.add(2)
    except RuntimeError:
        out.append('set')
    try:
        for k, v in d.items():
            d.pop(1)
    except RuntimeError:
        out.append('items')
    for k in list(d):
        d[3] = 3
    for k in d:
        d[k] = 5
    return out, d


def t_gather():
    async def f(x):
        if x == 2:
            raise ValueError(x)
        return x

    async def main():
        r = await asyncio.gather(f(1), f(2), f(3), return_exceptions=True)
        out = [x if isinstance(x, int) else type(x).__name__ for x in r]
        try:
            await asyncio.gather(f(1), f(2))
        except ValueError:
            out.append('raised')
        return out
    return asyncio.run(main())


@functools.total_ordering
class V:
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return self.v == o.v

    def __lt__(self, o):
        return self.v < o.v


def t_total_ordering():
    return [V(1) <= V(1), V(1) > V(2), V(2) >= V(1), V(2) > V(1), max([V(3), V(5), V(4)], key=lambda v: v.v).v]


@dataclasses.dataclass
class D:
    a: int
    b: list = dataclasses.field(default_factory=list)

    def __post_init__(self):
        self.c = self.a + 1


def t_dataclass():
    d = D(1)
    e = dataclasses.replace(d, a=4)
    d.b.append(1)
    return [d == D(1, [1]), d.c, e.c, D(2).b, dataclasses.asdict(d), [f.name for f in dataclasses.fields(D)]]


def gen(n):
    try:
        for i in range(n):
            got = yield i
    finally:
        calls.append('closed')


def t_generators():
    g = gen(3)
    out = [next(g), next(g)]
    out += list(g)
    out.append(next(g, 'end'))
    return out, sum(x for x in gen(4)), (lambda *a, **k: (a, k))(*gen(2), **{'z': 1})


def t_try():
    out = []

    def f(n):
        try:
            if n == 0:
                return 'ret'
            if n == 1:
                raise KeyError('k')
            if n == 2:
                raise ValueError('v')
        except KeyError as e:
            out.append(type(e).__name__)
        else:
            out.append('else')
        finally:
            out.append('fin')
        return 'end'
    for n in range(4):
        try:
            out.append(f(n))
        except ValueError as e:
            out.append(str(e))
    return out


def t_match_walrus():
    if (n := len('abc')) > 2:
        pass
    a, *b, c = [1, 2, 3, 4]
    x = y = []
    y.append(n)
    return a, b, c, x, [i for i in range(5) if i % 2], {k: v for k, v in zip('ab', (1, 2))}


def t_str():
    s = 'Has-Succeeded  x'
    return [s.lower(), s.split(), s.partition('-'), s.replace('-', '_'), s.startswith(('Has', 'x')), '%s|%r' % ('a', 'b'),
            '{:>5}|{x}'.format(1, x=2), f'{s!r:>20}', s[::-1], s.find('S'), ','.join(['a', 'b']), 'ab' in s, s.title(), s.strip('x'), '5'.zfill(3), 'a1'.isalnum()]


def t_sort():
    return sorted([3, 1, 2], reverse=True), sorted('bca', key=lambda c: -ord(c)), min([(2, 'a'), (1, 'b')]), max([], default=0), list(reversed([1, 2])), any([]), all([])


def t_dict():
    d = {'a': 1}
    d.update(b=2)
    d.setdefault('c', 3)
    e = {**d, 'a': 9}
    p = d.pop('zz', None)
    d |= {'q': 1}
    return d, e, p, list(d.items()), d == {'c': 3, 'b': 2, 'a': 1, 'q': 1}, d.popitem(), dict.fromkeys([1, 2], 0), OrderedDict(a=1)['a']


def t_set():
    a, b = {1, 2}, {2, 3}
    return sorted(a | b), sorted(a & b), sorted(a - b), sorted(a ^ b), a <= {1, 2, 3}, a.isdisjoint({5}), frozenset([1]) == {1}


class Single:
    _one = None

    def __new__(cls, *args):
        if cls._one is None:
            cls._one = super().__new__(cls)
        return cls._one

    def __init__(self, x):
        self.x = x


def t_new():
    a, b = Single(1), Single(2)
    return a is b, a.x


class B1:
    reg = []

    def __init_subclass__(cls, **k):
        super().__init_subclass__(**k)
        cls.reg.append(cls.__name__)

    def hi(self):
        return 'B1'


class B2(B1):
    def hi(self):
        return super().hi() + 'B2'

    @classmethod
    def mk(cls):
        return cls()

    @staticmethod
    def st(x):
        return x * 2

    @property
    def p(self):
        return self._p

    @p.setter
    def p(self, v):
        self._p = v + 1


def t_classes():
    b = B2.mk()
    b.p = 4
    return [b.hi(), b.st(2), b.p, B1.reg, isinstance(b, B1), issubclass(B2, B1), hasattr(b, 'zz'), getattr(b, 'zz', 5), type(b).__name__]


def t_closure():
    n = 0

    def inc():
        nonlocal n
        n += 1
        return n
    inc()
    fs = [lambda i=i: i for i in range(3)]
    return inc(), [f() for f in fs], [f() for f in [lambda: i for i in range(2)]]


def t_exc_chain():
    try:
        try:
            raise ValueError('a')
        except ValueError as e:
            raise KeyError('b') from e
    except KeyError as e:
        return type(e.__cause__).__name__, e.args


def t_global_while():
    i, out = 0, []
    while True:
        i += 1
        if i == 2:
            continue
        if i > 4:
            break
        out.append(i)
    else:
        out.append('else')
    for x in out:
        pass
    else:
        out.append('forelse')
    return out


def t_star():
    def f(a, b=2, *c, d, e=5, **k):
        return a, b, c, d, e, k
    try:
        f(1)
    except TypeError:
        pass
    else:
        return 'bad'
    return f(1, d=4), f(1, 3, 4, 5, d=6, z=7), f(*[1, 2], **{'d': 3})


def t_match():
    out = []
    for v in (1, 'a', [1, 2, 3], {'k': 5, 'z': 1}, None, (1,), 2.5):
        match v:
            case None:
                out.append('none')
            case int() if v == 1:
                out.append('one')
            case 'a' | 'b':
                out.append('ab')
            case [x, *rest]:
                out.append((x, rest))
            case {'k': y, **more}:
                out.append((y, more))
            case _:
                out.append('other')
    return out


def t_namedtuple_class():
    from typing import NamedTuple

    class P(NamedTuple):
        x: int
        y: int = 3

        def total(self):
            return self.x + self.y
    a, b = P(1)
    return [a, b, P(2, 4).total(), P(x=1).y, tuple(P(1)._replace(y=9)), P(1) == (1, 3)]


def t_enum():
    import enum

    class Color(enum.Enum):
        RED = 'red'
        BLUE = 'blue'
    return [Color.RED.value, Color.RED.name, Color('blue') is Color.BLUE, [c.value for c in Color], Color['RED'] is Color.RED]


def t_contextlib():
    import contextlib
    out = []

    @contextlib.contextmanager
    def cm(x):
        out.append(('in', x))
        try:
            yield x * 2
        except ValueError as e:
            out.append(('caught', str(e)))
        finally:
            out.append(('out', x))
    with cm(2) as y:
        out.append(y)
    with cm(3):
        raise ValueError('bad')
    with contextlib.suppress(KeyError, ValueError):
        {}['x']
    with contextlib.closing(type('C', (), {'close': lambda self: out.append('closed')})()):
        out.append('body')
    return out


def t_heapq_bisect():
    import bisect
    import heapq
    h = [5, 1, 4]
    heapq.heapify(h)
    heapq.heappush(h, 0)
    out = [heapq.heappop(h) for _ in range(4)]
    return [out, bisect.bisect_left([1, 3, 5], 3), bisect.bisect_right([1, 3, 5], 3), bisect.bisect([1, 3], 9), heapq.nsmallest(2, [3, 1, 2])]


def t_functools_more():
    import functools
    import itertools

    @functools.singledispatch
    def kind(x):
        return 'object'

    @kind.register(int)
    def _(x):
        return 'int'

    @kind.register
    def _(x: str):
        return 'str'
    p = functools.partial(lambda a, b, c=0: (a, b, c), 1, c=3)

    def deco(f):
        @functools.wraps(f)
        def w(*a, **k):
            return f(*a, **k) + 1
        return w

    @deco
    def named(x):
        return x
    return [kind(1), kind('a'), kind([]), p(2), functools.reduce(lambda a, b: a + b, [1, 2, 3], 10), functools.reduce(max, [3, 9, 2]), named(4), named.__name__,
            list(itertools.takewhile(lambda x: x < 3, [1, 2, 3, 1])), list(itertools.filterfalse(lambda x: x % 2, range(5))), list(itertools.product([1, 2], 'ab')),
            list(itertools.combinations([1, 2, 3], 2)), list(zip([1, 2], [2, 3]))]


def t_yield_from():
    def inner():
        x = yield 1
        yield x
        return 'r'

    def outer():
        r = yield from inner()
        yield r
    g = outer()
    return [next(g), g.send(7), next(g), next(g, 'end')]


def t_strings_more():
    return ['abc'.removeprefix('a'), 'abc'.removesuffix('c'), 'a=b=c'.partition('='), 'a=b=c'.rpartition('='), '{x}-{y}'.format(x=1, y=2), '%(a)s' % {'a': 1}, 'a b'.split(None, 1),
            '-'.join(str(i) for i in range(3)), f'{3:02d} {"x"!r:>5}', 'Abc'.casefold(), 'x'.center(3, '*'), '{x}'.format_map({'x': 4}), 'a,b'.rsplit(',', 1), 'abc'[::-1], 'ab' * 2, 'a' in 'abc']


def t_attr_hooks():
    class A:
        def __getattr__(self, n):
            return n.upper()

        def __setattr__(self, n, v):
            object.__setattr__(self, n, (v, 1))
    a = A()
    a.x = 1
    return [a.x, a.y]


def t_simple_namespace():
    import types
    n = types.SimpleNamespace(a=1, b=[2])
    n.c = n.a + 1
    return [n.c, n.b, vars(n)]


def t_async_more():
    import asyncio
    import contextlib
    out = []

    @contextlib.asynccontextmanager
    async def cm():
        out.append('in')
        try:
            yield 5
        finally:
            out.append('out')

    class It:
        def __init__(self):
            self.n = 0

        def __aiter__(self):
            return self

        async def __anext__(self):
            self.n += 1
            if self.n > 2:
                raise StopAsyncIteration
            return self.n

    async def gen():
        for i in range(3):
            yield i

    async def main():
        async with cm() as x:
            out.append(x)
        async for i in It():
            out.append(i)
        out.append([i async for i in gen() if i])
        return 'done'
    return [asyncio.run(main()), out]


def t_dict_more():
    import collections
    d = {'a': 1, **{'b': 2}}
    c = collections.ChainMap({'x': 1}, {'x': 2, 'y': 3})
    e = dict.fromkeys('ab', 0)
    e.update(zip('cd', (1, 2)), z=5)
    (first, *_), last = [1, 2, 3], 4
    k, v = d.popitem()
    return [d, c['x'], c['y'], e, first, last, k, v, {**e} == e, d | {'q': 1}, list(reversed(e)), {v: k for k, v in e.items()}, max(e, key=e.get), sorted(e.items(), key=lambda kv: (-kv[1], kv[0]))[0], d.keys() & {'a'}]


def t_finally_flow():
    out = []

    def f(x):
        for i in range(3):
            try:
                if i == x:
                    continue
                if x == 9:
                    return 'ret'
                out.append(i)
            except Exception:
                raise
            else:
                out.append('else')
            finally:
                out.append('fin')
        else:
            out.append('loopelse')
        return out and 'end'

    def g():
        try:
            raise ValueError('a')
        except ValueError as e:
            try:
                raise KeyError('b') from e
            except KeyError as e2:
                return [type(e2.__cause__).__name__, e2.args]
    return [f(1), f(9), out, g()]


def t_class_more():
    class Base:
        __slots__ = ('v',)

        def __init__(self, v):
            self.v = v

        @classmethod
        def of(cls, v):
            return cls(v + 1)

        @staticmethod
        def st(v):
            return v

        @property
        def p(self):
            return self.v

        @p.setter
        def p(self, v):
            self.v = v * 10

    class Sub(Base):
        def __init__(self, v):
            super().__init__(v)

        def __call__(self, x):
            return self.v + x

        def __iter__(self):
            yield from (self.v, self.v + 1)

        def __len__(self):
            return 3

        def __contains__(self, x):
            return x == self.v

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return a[0] is KeyError
    s = Sub.of(1)
    s.p = 5
    with s as t:
        raise KeyError
    return [s.v, s(1), list(s), len(s), 50 in s, Sub.st(3), t is s, isinstance(s, Base), issubclass(Sub, Base), bool(s), [c.__name__ for c in Sub.__mro__][:2]]
