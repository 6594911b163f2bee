"""Models of Python built-ins and of the library functions the package uses."""
import asyncio as _asyncio
import builtins as _bi
import calendar as _calendar
import datetime as _dt
import functools as _ft
import bisect as _bisect
import heapq as _heapq
import inspect
import itertools as _it
import math as _math
import pickle as _pickle
import queue as _queue
import re as _re
import subprocess as _sp

from .values import *
from . import interp as _i
from .interp import _MISSING, AbsRaise, Unsupported, SliceVal, UnionVal, DictView, is_concrete, short, BUILTIN_EXC, APath

PATTERN = type(_re.compile(''))
MATCH = type(_re.match('', ''))

_BINOPS = {
    'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mult': lambda a, b: a * b,
    'Div': lambda a, b: a / b, 'FloorDiv': lambda a, b: a // b, 'Mod': lambda a, b: a % b,
    'Pow': lambda a, b: a ** b, 'BitAnd': lambda a, b: a & b, 'BitOr': lambda a, b: a | b,
    'BitXor': lambda a, b: a ^ b, 'LShift': lambda a, b: a << b, 'RShift': lambda a, b: a >> b,
    'MatMult': lambda a, b: a @ b,
}
_DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'FloorDiv': 'floordiv', 'Mod': 'mod',
           'Pow': 'pow', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'LShift': 'lshift', 'RShift': 'rshift',
           'MatMult': 'matmul'}


def plain(v):
    """Python constant usable for constant folding."""
    return is_concrete(v) or isinstance(v, (PATTERN, MATCH)) or (isinstance(v, tuple) and all(plain(x) for x in v))


def to_py(I, v):
    v = I.force(v)
    if isinstance(v, AList):
        return [to_py(I, x) for x in v.items]
    if isinstance(v, tuple):
        return tuple(to_py(I, x) for x in v)
    if isinstance(v, ADict):
        return {to_py(I, k): to_py(I, x) for k, x in v.d.items()}
    if isinstance(v, ASet):
        return frozenset(to_py(I, x) for x in v.items)
    if plain(v):
        return v
    if isinstance(v, PyClass):
        return v.t
    raise _NotPlain(v)


class _NotPlain(Exception):
    pass


def from_py(v):
    if isinstance(v, list):
        return AList([from_py(x) for x in v])
    if isinstance(v, tuple):
        return tuple(from_py(x) for x in v)
    if isinstance(v, dict):
        return ADict({from_py(k): from_py(x) for k, x in v.items()})
    if isinstance(v, (set, frozenset)):
        return ASet([from_py(x) for x in sorted(v, key=repr)], frozen=isinstance(v, frozenset))
    return v


def folded(I, name, fn, args, kwargs):
    """Constant folding of a library function; uninterpreted when not constant."""
    try:
        a = [to_py(I, x) for x in args]
        k = {n: to_py(I, x) for n, x in kwargs.items()}
    except _NotPlain:
        return Sym(('lib', name) + tuple(key_of(I.force(x)) for x in args)
                   + tuple((n, key_of(I.force(x))) for n, x in sorted(kwargs.items())), meta={'notobj': True})
    try:
        return from_py(fn(*a, **k))
    except Exception as e:
        c = type(e)
        I.raise_(PyClass(c), *[x for x in e.args if plain(x)])


# ------------------------------------------------------------------ operators
def binop(I, op, a, b):
    a = I.force(a)
    b = I.force(b)
    for x, y, r in ((a, b, ''), (b, a, 'r')):
        if isinstance(x, Obj):
            m = I.class_lookup(x.cls, '__%s%s__' % (r, _DUNDER[op]))
            if m is not _MISSING:
                v = I.call(I.bind(m, x), [y], {})
                if v is not NOTIMPL:
                    return v
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool) and not isinstance(a, bool):
        b = int(b) if op not in ('BitAnd', 'BitOr', 'BitXor') else b
    if isinstance(a, DT) or isinstance(b, DT):
        return dt_op(I, op, a, b)
    if isinstance(a, TD) and isinstance(b, _dt.timedelta):
        b = b.total_seconds()
    elif isinstance(b, TD) and isinstance(a, _dt.timedelta):
        a = TD({}, a.total_seconds())
    if isinstance(a, Lin) or isinstance(b, Lin):
        if I.linable(a) and I.linable(b):
            if op == 'Add':
                return a.add(b) if isinstance(a, Lin) else b.add(a)
            if op == 'Sub':
                r = (a if isinstance(a, Lin) else Lin({}, a)).add(b, -1)
                return r if r.co else r.const
            if op == 'Mult' and not (isinstance(a, Lin) and isinstance(b, Lin)):
                return a.scale(b) if isinstance(a, Lin) else b.scale(a)
            val = getattr(I.world, 'val', None)
            if op in ('Mod', 'FloorDiv') and isinstance(a, Lin) and isinstance(b, int) and b and val and all(n in val for n in a.co):
                q = I.world.num(a) // b         # constant in the region of the path
                return int(q) if op == 'FloorDiv' else a.add(-q * b)
        return Sym(('op', op, key_of(a), key_of(b)), meta={'notobj': True, 'notnone': True})
    if isinstance(a, AList) and isinstance(b, AList) and op == 'Add':
        return AList(a.items + b.items)
    if isinstance(a, AList) and isinstance(b, int) and op == 'Mult':
        return AList(a.items * b)
    if isinstance(a, ADict) and isinstance(b, ADict) and op == 'BitOr':
        n = ADict(dict(a.d))
        for k, v in b.d.items():
            dict_set(I, n, k, v)
        return n
    if isinstance(a, (ASet, DictView)) and isinstance(b, (ASet, DictView)):
        x = list(I.iterate(a))
        y = list(I.iterate(b))
        inn = lambda e, l: any(I.identical_q(e, z) or I.eq(e, z) for z in l)
        if op == 'BitAnd':
            return ASet([e for e in x if inn(e, y)])
        if op == 'BitOr':
            return ASet(x + [e for e in y if not inn(e, x)])
        if op == 'Sub':
            return ASet([e for e in x if not inn(e, y)])
        if op == 'BitXor':
            return ASet([e for e in x if not inn(e, y)] + [e for e in y if not inn(e, x)])
    if op == 'Add' and isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    if op == 'Mod' and isinstance(a, str):
        try:
            return a % to_py(I, b)
        except _NotPlain:
            return Sym(('fmt%', a, key_of(b)), meta={'notnone': True})
        except (TypeError, ValueError) as e:
            I.raise_(type(e).__name__, str(e))
    if plain(a) and plain(b):
        try:
            return _BINOPS[op](a, b)
        except Exception as e:
            I.raise_(PyClass(type(e)), str(e))
    if isinstance(a, Sym) or isinstance(b, Sym):
        if a is None or b is None:
            I.raise_('TypeError', 'unsupported operand')
        s = a if isinstance(a, Sym) else b
        o = b if s is a else a
        if s.meta and 'binop' in s.meta:
            r = s.meta['binop'](I, op, a, b)
            if r is not _MISSING:
                return r
        isstr = op == 'Add' and (isinstance(o, str) or (s.meta and s.meta.get('parts') is not None))
        m = {'notobj': True, 'notnone': True}
        if isstr:
            pa = (a.meta or {}).get('parts', [a]) if isinstance(a, Sym) else [a]
            pb = (b.meta or {}).get('parts', [b]) if isinstance(b, Sym) else [b]
            m['parts'] = list(pa) + list(pb)
            m['isinstance'] = lambda c: isinstance(c, PyClass) and c.t in (str, object)
        return Sym(('op', op, key_of(a), key_of(b)), meta=m)
    if op == 'BitOr' and (isinstance(a, (ClassVal, PyClass, ExtRef, UnionVal)) or a is None):
        return UnionVal([a, b])
    I.raise_('TypeError', 'unsupported operand %s: %s %s' % (op, short(a), short(b)))


def dt_op(I, op, a, b):
    if op == 'Sub' and isinstance(a, DT) and isinstance(b, DT):
        if (a.tz is None) != (b.tz is None):
            I.raise_('TypeError', "can't subtract offset-naive and offset-aware datetimes")
        r = a.lin.add(b.lin, -1)
        return r if r.co else _dt.timedelta(seconds=r.const)
    if op in ('Add', 'Sub'):
        d, o = (a, b) if isinstance(a, DT) else (b, a)
        if isinstance(o, _dt.timedelta) and not (op == 'Sub' and d is b):
            return DT(d.lin.add(o.total_seconds(), 1 if op == 'Add' else -1), d.tz)
        if isinstance(o, Lin) and not (op == 'Sub' and d is b):
            return DT(d.lin.add(o, 1 if op == 'Add' else -1), d.tz)
    if a is None or b is None or isinstance(a, (int, float, str)) or isinstance(b, (int, float, str)):
        I.raise_('TypeError', 'unsupported operand type for datetime')
    raise Unsupported('%s of an abstract datetime and %s' % (op, short(b if isinstance(a, DT) else a)))


def dt_attr(I, v, name):
    if name == 'tzinfo':
        return v.tz
    if name == 'timestamp':
        return Builtin('timestamp', lambda I, a, k: v.lin)
    if name == 'astimezone':
        return Builtin('astimezone', lambda I, a, k: DT(v.lin, I.force(a[0]) if a else Sym('local timezone', meta={'notnone': True})))
    f = cmp_method(I, v, name)
    if f is not None:
        return Builtin(name, f)
    if name == 'replace':
        def replace(I, a, k):
            if not a and set(k) == {'tzinfo'}:
                return DT(v.lin, I.force(k['tzinfo']))
            if not a and k == {'microsecond': 0} and hasattr(I.world, 'floor'):
                return DT(I.world.floor(I, v.lin), v.tz)
            raise Unsupported('replacing parts of an abstract datetime')
        if not hasattr(I.world, 'datetime_attr'):
            return Builtin(name, replace)
    if hasattr(I.world, 'datetime_attr'):
        x = I.world.datetime_attr(I, v, name)
        if x is not None:
            return x
    if hasattr(_dt.datetime, name):
        raise Unsupported('attribute %s of an abstract datetime' % name)
    I.raise_('AttributeError', "'datetime.datetime' object has no attribute '%s'" % name)


def augop(I, op, a, b):
    a = I.force(a)
    if isinstance(a, AList) and op == 'Add':
        a.items.extend(list(I.iterate(b)))
        I.event('mutate', obj=a, op='+=')
        return a
    if isinstance(a, ASet) and not a.frozen and op in ('BitOr', 'BitAnd', 'Sub', 'BitXor'):
        a.items = binop(I, op, a, b).items
        I.event('mutate', obj=a, op=op)
        return a
    if isinstance(a, ADict) and op == 'BitOr':
        for k, v in mapping_items(I, b):
            dict_set(I, a, k, v)
        return a
    if isinstance(a, Obj):
        m = I.class_lookup(a.cls, '__i%s__' % _DUNDER[op])
        if m is not _MISSING:
            v = I.call(I.bind(m, a), [b], {})
            if v is not NOTIMPL:
                return v
    return binop(I, op, a, b)


def unop(I, op, v):
    v = I.force(v)
    if isinstance(v, Obj):
        n = {'Invert': '__invert__', 'USub': '__neg__', 'UAdd': '__pos__'}[op]
        m = I.class_lookup(v.cls, n)
        if m is not _MISSING:
            return I.call(I.bind(m, v), [], {})
        I.raise_('TypeError', 'bad operand type for unary')
    if isinstance(v, Lin):
        if op == 'USub':
            return v.scale(-1)
        if op == 'UAdd':
            return v
    if isinstance(v, Sym):
        return Sym(('op1', op, v.key), meta={'notobj': True, 'notnone': True})
    try:
        return {'Invert': lambda x: ~x, 'USub': lambda x: -x, 'UAdd': lambda x: +x}[op](v)
    except TypeError as e:
        I.raise_('TypeError', str(e))


# ------------------------------------------------------------------ containers
def dict_set(I, d, k, v):
    k = I.force(k)
    kk = I.dict_find(d, k)
    d.d[k if kk is _MISSING else kk] = v


def set_add(I, s, x):
    x = I.force(x)
    if isinstance(x, (AList, ADict)) or (isinstance(x, ASet) and not x.frozen):
        I.raise_('TypeError', 'unhashable type')
    for y in s.items:
        if I.identical_q(x, y):
            return
        if isinstance(x, Obj) and isinstance(y, Obj):
            if I._ident_hash(x.cls) or I._ident_hash(y.cls):
                continue
        if I.eq(x, y):
            return
    s.items.append(x)


def mapping_items(I, v):
    v = I.force(v)
    if isinstance(v, ADict):
        return list(v.d.items())
    if isinstance(v, Obj):
        m = I.class_lookup(v.cls, 'keys')
        if m is not _MISSING:
            ks = list(I.iterate(I.call(I.bind(m, v), [], {})))
            return [(k, getitem(I, v, k)) for k in ks]
        if I.class_lookup(v.cls, '__getitem__') is not _MISSING and I.class_lookup(v.cls, '__iter__') is not _MISSING:
            return [(k, getitem(I, v, k)) for k in list(I.iterate(v))]
    if isinstance(v, Sym):
        if v.meta and 'items' in v.meta:
            return v.meta['items'](I)
        I.event('starmap', value=v)
        return []
    if isinstance(v, (AList, tuple, AIter, DictView)):
        out = []
        for p in I.iterate(v):
            p = list(I.iterate(p))
            if len(p) != 2:
                I.raise_('ValueError', 'dictionary update sequence')
            out.append((p[0], p[1]))
        return out
    I.raise_('TypeError', 'argument after ** must be a mapping')


def _seq_index(I, n, k):
    if isinstance(k, Lin) or not isinstance(k, int):
        I.raise_('TypeError', 'indices must be integers')
    if k < -n or k >= n:
        I.raise_('IndexError', 'index out of range')
    return k


def getitem(I, o, k):
    o = I.force(o)
    k = I.force(k)
    if isinstance(o, ADict):
        kk = I.dict_find(o, k)
        if kk is _MISSING:
            if o.factory is not None:
                v = I.call(o.factory, [], {})
                dict_set(I, o, k, v)
                return v
            I.raise_('KeyError', k)
        return o.d[kk]
    if isinstance(o, (AList, tuple, str, bytes, range)):
        seq = o.items if isinstance(o, AList) else o
        if isinstance(k, SliceVal):
            if any(isinstance(x, (Sym, Lin)) for x in (k.lo, k.hi, k.st)):
                return Sym(('slice', key_of(o), key_of(k.lo), key_of(k.hi), key_of(k.st)))
            try:
                r = seq[k.lo:k.hi:k.st]
            except (TypeError, ValueError) as e:
                I.raise_(type(e).__name__, str(e))
            return AList(r) if isinstance(o, AList) else r
        if isinstance(k, Sym):
            if isinstance(o, (str, bytes)) or not seq:
                return Sym(('item', key_of(o), k.key))
            i = I.choose(('index', key_of(o), k.key), list(range(len(seq))))
            return seq[i]
        return seq[_seq_index(I, len(seq), k)]
    if isinstance(o, Obj):
        m = I.class_lookup(o.cls, '__getitem__')
        if m is not _MISSING:
            return I.call(I.bind(m, o), [k], {})
        if o.lazy:
            return Sym(('item', ('obj', o.label), key_of(k)))
        I.raise_('TypeError', "'%s' object is not subscriptable" % getattr(o.cls, 'name', '?'))
    if isinstance(o, Sym):
        if o.meta and 'getitem' in o.meta:
            return o.meta['getitem'](I, o, k)
        return Sym(('item', o.key, key_of(k) if not isinstance(k, SliceVal) else ('slice', key_of(k.lo), key_of(k.hi), key_of(k.st))))
    if isinstance(o, ExtRef):
        if o.path in ('typing.Union', 'typing.Optional'):
            items = list(k) if isinstance(k, tuple) else [k]
            return UnionVal(items + ([None] if o.path.endswith('Optional') else []))
        return ExtRef(o.path)
    if isinstance(o, (ClassVal, PyClass)):
        if isinstance(o, ClassVal):
            if o.enum is not None:
                if k not in o.enum:
                    I.raise_('KeyError', k)
                return o.enum[k]
            m = I.class_lookup(o, '__class_getitem__')
            if m is not _MISSING:
                return I.call(I.bind(m, o, o), [k], {})
        return o
    if isinstance(o, MATCH):
        try:
            return o[k]
        except IndexError as e:
            I.raise_('IndexError', str(e))
    if isinstance(o, UnionVal):
        return o
    I.raise_('TypeError', '%s is not subscriptable' % short(o))


def setitem(I, o, k, v):
    o = I.force(o)
    k = I.force(k)
    if isinstance(o, ADict):
        dict_set(I, o, k, v)
        I.event('mutate', obj=o, op='setitem', key=k, value=v)
        return
    if isinstance(o, AList):
        I.event('mutate', obj=o, op='setitem', key=k, value=v)
        if isinstance(k, SliceVal):
            o.items[k.lo:k.hi:k.st] = list(I.iterate(v))
            return
        o.items[_seq_index(I, len(o.items), k)] = v
        return
    if isinstance(o, Obj):
        m = I.class_lookup(o.cls, '__setitem__')
        if m is not _MISSING:
            I.call(I.bind(m, o), [k, v], {})
            return
    if isinstance(o, (Sym, ExtRef)):
        I.event('setitem', obj=o, key=k, value=v)
        return
    I.raise_('TypeError', 'object does not support item assignment')


def delitem(I, o, k):
    o = I.force(o)
    k = I.force(k)
    if isinstance(o, ADict):
        kk = I.dict_find(o, k)
        if kk is _MISSING:
            I.raise_('KeyError', k)
        del o.d[kk]
        I.event('mutate', obj=o, op='delitem', key=k)
        return
    if isinstance(o, AList):
        I.event('mutate', obj=o, op='delitem', key=k)
        if isinstance(k, SliceVal):
            del o.items[k.lo:k.hi:k.st]
            return
        del o.items[_seq_index(I, len(o.items), k)]
        return
    if isinstance(o, Obj):
        m = I.class_lookup(o.cls, '__delitem__')
        if m is not _MISSING:
            I.call(I.bind(m, o), [k], {})
            return
    if isinstance(o, (Sym, ExtRef)):
        I.event('delitem', obj=o, key=k)
        return
    I.raise_('TypeError', "object doesn't support item deletion")


# ------------------------------------------------------------------ methods of built-in values
def _sort(I, items, key=None, reverse=False):
    ks = [(I.call(key, [x], {}) if key is not None else x) for x in items]
    idx = list(range(len(items)))

    def cmp(i, j):
        if I.truth(I.compare('lt', ks[i], ks[j])):
            return -1
        if I.truth(I.compare('lt', ks[j], ks[i])):
            return 1
        return 0
    rev = I.truth(reverse)
    idx.sort(key=_ft.cmp_to_key(cmp), reverse=rev)
    return [items[i] for i in idx]


def _find(I, items, x):
    for i, y in enumerate(items):
        if I.identical_q(x, y) or I.eq(y, x):
            return i
    return -1


def m_list(I, o, name):
    L = o

    def ev(op, **k):
        I.event('mutate', obj=L, op=op, **k)

    def trim(left=False):
        n = L.maxlen
        if n is not None and len(L.items) > n:
            L.items[:] = L.items[:n] if left else L.items[len(L.items) - n:]

    def append(I, a, k):
        L.items.append(a[0]); trim(); ev('append', value=a[0])

    def extend(I, a, k):
        L.items.extend(list(I.iterate(a[0]))); trim(); ev('extend')

    def appendleft(I, a, k):
        L.items.insert(0, a[0]); trim(True); ev('insert', value=a[0])

    def extendleft(I, a, k):
        for x in I.iterate(a[0]):
            L.items.insert(0, x)
        trim(True); ev('extend')

    def popleft(I, a, k):
        return pop(I, [0], {})

    def insert(I, a, k):
        L.items.insert(I.force(a[0]), a[1]); ev('insert', value=a[1])

    def pop(I, a, k):
        if not L.items:
            I.raise_('IndexError', 'pop from empty list')
        i = I.force(a[0]) if a else -1
        v = L.items.pop(_seq_index(I, len(L.items), i))
        ev('pop', index=i, value=v)
        return v

    def remove(I, a, k):
        i = _find(I, L.items, a[0])
        if i < 0:
            I.raise_('ValueError', 'list.remove(x): x not in list')
        v = L.items.pop(i)
        ev('remove', value=v)

    def clear(I, a, k):
        L.items.clear(); ev('clear')

    def index(I, a, k):
        i = _find(I, L.items, a[0])
        if i < 0:
            I.raise_('ValueError', 'is not in list')
        return i

    def sort(I, a, k):
        L.items[:] = _sort(I, list(L.items), k.get('key'), k.get('reverse', False)); ev('sort')

    def reverse(I, a, k):
        L.items.reverse(); ev('reverse')
    t = {'append': append, 'extend': extend, 'insert': insert, 'pop': pop, 'remove': remove, 'clear': clear,
         'index': index, 'sort': sort, 'reverse': reverse,
         'copy': lambda I, a, k: AList(L.items),
         'count': lambda I, a, k: sum(1 for x in L.items if I.eq(x, a[0])),
         '__len__': lambda I, a, k: len(L.items),
         '__iter__': lambda I, a, k: AIter(I.iterate(L)),
         '__contains__': lambda I, a, k: I.contains(a[0], L),
         '__getitem__': lambda I, a, k: getitem(I, L, a[0]),
         }
    if L.label == 'deque':
        t.update(appendleft=appendleft, extendleft=extendleft, popleft=popleft)
    return t.get(name)


def m_dict(I, o, name):
    D = o

    def ev(op, **k):
        I.event('mutate', obj=D, op=op, **k)

    def get(I, a, k):
        kk = I.dict_find(D, a[0])
        return D.d[kk] if kk is not _MISSING else (a[1] if len(a) > 1 else k.get('default'))

    def pop(I, a, k):
        kk = I.dict_find(D, a[0])
        if kk is _MISSING:
            if len(a) > 1:
                return a[1]
            I.raise_('KeyError', a[0])
        v = D.d.pop(kk)
        ev('pop', key=kk, value=v)
        return v

    def popitem(I, a, k):
        if not D.d:
            I.raise_('KeyError', 'popitem(): dictionary is empty')
        ev('popitem')
        return D.d.popitem()

    def setdefault(I, a, k):
        kk = I.dict_find(D, a[0])
        if kk is _MISSING:
            D.d[I.force(a[0])] = a[1] if len(a) > 1 else None
            ev('setitem', key=a[0])
            return D.d[I.force(a[0])]
        return D.d[kk]

    def update(I, a, k):
        for x in a:
            for kk, v in mapping_items(I, x):
                dict_set(I, D, kk, v)
        for kk, v in k.items():
            dict_set(I, D, kk, v)
        ev('update')

    def clear(I, a, k):
        D.d.clear(); ev('clear')
    t = {'get': get, 'pop': pop, 'popitem': popitem, 'setdefault': setdefault, 'update': update, 'clear': clear,
         'copy': lambda I, a, k: ADict(dict(D.d)),
         'keys': lambda I, a, k: DictView(I, D, 'keys'),
         'values': lambda I, a, k: DictView(I, D, 'values'),
         'items': lambda I, a, k: DictView(I, D, 'items'),
         '__len__': lambda I, a, k: len(D.d),
         '__iter__': lambda I, a, k: AIter(I.iterate(D)),
         '__contains__': lambda I, a, k: I.contains(a[0], D),
         '__getitem__': lambda I, a, k: getitem(I, D, a[0]),
         '__setitem__': lambda I, a, k: setitem(I, D, a[0], a[1]),
         '__delitem__': lambda I, a, k: delitem(I, D, a[0]),
         }
    return t.get(name)


def m_set(I, o, name):
    S = o

    def ev(op, **k):
        I.event('mutate', obj=S, op=op, **k)

    def add(I, a, k):
        set_add(I, S, a[0]); ev('add', value=a[0])

    def remove(I, a, k):
        i = _find(I, S.items, a[0])
        if i < 0:
            I.raise_('KeyError', a[0])
        S.items.pop(i); ev('remove', value=a[0])

    def discard(I, a, k):
        i = _find(I, S.items, a[0])
        if i >= 0:
            S.items.pop(i); ev('remove', value=a[0])

    def pop(I, a, k):
        if not S.items:
            I.raise_('KeyError', 'pop from an empty set')
        v = S.items.pop(0); ev('pop')
        return v

    def update(I, a, k):
        for x in a:
            for y in list(I.iterate(x)):
                set_add(I, S, y)
        ev('update')

    def clear(I, a, k):
        S.items.clear(); ev('clear')

    def asset(x):
        s = ASet()
        for y in I.iterate(x):
            set_add(I, s, y)
        return s
    t = {'add': add, 'remove': remove, 'discard': discard, 'pop': pop, 'update': update, 'clear': clear,
         'copy': lambda I, a, k: ASet(S.items, S.frozen),
         'union': lambda I, a, k: _ft.reduce(lambda x, y: binop(I, 'BitOr', x, asset(y)), a, S),
         'intersection': lambda I, a, k: _ft.reduce(lambda x, y: binop(I, 'BitAnd', x, asset(y)), a, S),
         'difference': lambda I, a, k: _ft.reduce(lambda x, y: binop(I, 'Sub', x, asset(y)), a, S),
         'issubset': lambda I, a, k: I.compare('le', S, asset(a[0])),
         'issuperset': lambda I, a, k: I.compare('ge', S, asset(a[0])),
         'isdisjoint': lambda I, a, k: not binop(I, 'BitAnd', S, asset(a[0])).items,
         '__len__': lambda I, a, k: len(S.items),
         '__contains__': lambda I, a, k: I.contains(a[0], S),
         '__iter__': lambda I, a, k: AIter(I.iterate(S)),
         }
    return t.get(name)


def _str_method(I, o, name):
    def f(I, a, k):
        if name == 'join':
            items = [I.force(x) for x in I.iterate(a[0])]
            if all(isinstance(x, str) for x in items):
                return o.join(items)
            parts = []
            for i, x in enumerate(items):
                if i:
                    parts.append(o)
                parts.append(x)
            return Sym(('join', o) + tuple(key_of(x) for x in items), meta={'notnone': True, 'parts': parts, 'strlike': True})
        if name == 'format':
            try:
                return o.format(*[to_py(I, x) for x in a], **{n: to_py(I, x) for n, x in k.items()})
            except _NotPlain:
                import string
                parts = []
                auto = 0
                for lit, fld, spec, conv in string.Formatter().parse(o):
                    if lit:
                        parts.append(lit)
                    if fld is not None:
                        if fld == '':
                            v = a[auto]; auto += 1
                        elif fld.isdigit():
                            v = a[int(fld)]
                        elif fld in k:
                            v = k[fld]
                        elif '.' in fld or '[' in fld:
                            v = Sym(('fmtfield', fld, tuple((n, key_of(x)) for n, x in sorted(k.items()))))
                        else:
                            I.raise_('KeyError', fld)
                        v = I.force(v)
                        parts.append(v if isinstance(v, str) else Sym(('fmt', key_of(v), conv, spec)))
                return Sym(('format', o) + tuple(key_of(p) for p in parts), meta={'notnone': True, 'parts': parts, 'strlike': True})
            except (KeyError, IndexError, AttributeError) as e:
                I.raise_(type(e).__name__, str(e))
        return folded(I, 'str.' + name, lambda *x, **y: getattr(o, name)(*x, **y), a, k)
    return f


def cmp_method(I, o, name):
    if name in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__'):
        op = name.strip('_')

        def f(I, a, k):
            if op == 'eq':
                return I.eq_val(o, a[0])
            if op == 'ne':
                return not I.eq(o, a[0])
            return I.compare(op, o, a[0])
        return f
    return None


def const_attr(I, v, name):
    """Attribute of a non-heap-object value."""
    if name == '__class__':
        return I.type_of(v)
    f = None
    if isinstance(v, AList):
        f = m_list(I, v, name)
    elif isinstance(v, ADict):
        f = m_dict(I, v, name)
    elif isinstance(v, ASet):
        f = m_set(I, v, name)
    elif isinstance(v, DictView):
        if name == '__len__':
            f = lambda I, a, k: len(v.snapshot())
        elif name in ('isdisjoint',):
            f = lambda I, a, k: not any(I.contains(x, v) for x in I.iterate(a[0]))
    elif isinstance(v, str):
        if hasattr(v, name):
            f = cmp_method(I, v, name) or _str_method(I, v, name)
    elif isinstance(v, tuple):
        if name in ('count', 'index', '__len__', '__iter__', '__contains__', '__getitem__'):
            f = m_list(I, AList(v), name)
    elif isinstance(v, (Func, Builtin)):
        if name in v.attrs:
            return v.attrs[name]
        if name in ('__name__', '__qualname__'):
            return v.name
        if name == '__module__':
            return v.module.name if isinstance(v, Func) else 'builtins'
        if name == '__doc__':
            import ast as _ast
            return _ast.get_docstring(v.node) if isinstance(v, Func) and not isinstance(v.node, _ast.Lambda) else None
        if name == '__call__':
            return v
        if name == '__get__':
            f = lambda I, a, k: Bound(v, a[0])
        if name == '__dict__':
            return ADict(v.attrs)
        if f is None and isinstance(v, Builtin):
            e = I.ext.get('%s.%s' % (v.name, name))
            if e is not None:
                return e
            if name not in ('__wrapped__', '__rocketry__', '__self__', '__code__', '__defaults__', '__kwdefaults__', '__annotations__') and _really_has(v.name, name):
                raise Unsupported('%s.%s' % (v.name, name))
        if f is None:
            I.raise_('AttributeError', name)
    elif isinstance(v, Bound):
        if name == '__self__':
            return v.self
        if name == '__func__':
            return v.func
        return I._getattr(v.func, name)
    elif isinstance(v, Partial):
        if name == 'func':
            return v.func
        if name == 'args':
            return tuple(v.args)
        if name == 'keywords':
            return ADict(dict(v.kwargs))
    elif isinstance(v, PropVal):
        if name == 'setter':
            f = lambda I, a, k: PropVal(v.fget, a[0])
        elif name == 'getter':
            f = lambda I, a, k: PropVal(a[0], v.fset)
        elif name == 'deleter':
            f = lambda I, a, k: v
        elif name == 'fget':
            return v.fget
        elif name == 'fset':
            return v.fset
    elif isinstance(v, PyClass):
        if name in ('__name__', '__qualname__'):
            return v.t.__name__
        e = I.ext.get('%s.%s' % (v.path, name))
        if e is not None:
            return e
        if v.t is object:
            f = _object_method(name)
        elif issubclass(v.t, BaseException) and name == '__init__':
            f = lambda I, a, k: I._exc_init(a, k)
        elif v.t in (dict, list, set, str, tuple, frozenset) and hasattr(v.t, name):
            if v.t is dict and name == 'fromkeys':
                def f(I, a, k):
                    d = ADict({})
                    for x in I.iterate(a[0]):
                        dict_set(I, d, x, a[1] if len(a) > 1 else None)
                    return d
            else:
                f = lambda I, a, k: I.call(I.getattr(a[0], name), a[1:], k)
        elif hasattr(v.t, name):
            x = getattr(v.t, name)
            if plain(x):
                return x
            if callable(x):
                return Builtin('%s.%s' % (v.name, name), lambda I, a, k: folded(I, '%s.%s' % (v.name, name), x, a, k))
    elif isinstance(v, Coro):
        if name == 'close':
            f = lambda I, a, k: None
    elif isinstance(v, AIter):
        if name == '__next__':
            f = lambda I, a, k: b_next(I, [v] + a, k)
        elif name == 'send':
            f = lambda I, a, k: b_send(I, v, a[0])
        elif name == '__iter__':
            f = lambda I, a, k: v
        elif name == 'close':
            f = lambda I, a, k: None
    elif isinstance(v, DT):
        return dt_attr(I, v, name)
    elif isinstance(v, Lin):
        f = cmp_method(I, v, name)
        if f is None and name in ('total_seconds', '__abs__', '__int__', '__float__'):
            f = lambda I, a, k: v
        if f is None and name in ('tzinfo',):
            return None
        if f is None and name in ('__len__', '__iter__', 'use_reference', 'decode'):
            I.raise_('AttributeError', name)
    elif isinstance(v, (PATTERN, MATCH)):
        x = getattr(v, name, _MISSING)
        if x is not _MISSING:
            if plain(x):
                return x
            if callable(x):
                return Builtin('re.%s' % name, lambda I, a, k: _wrap_re(I, v, name, a, k))
            return from_py(dict(x)) if not isinstance(x, (tuple,)) else x
    elif isinstance(v, UnionVal):
        return Sym(('union', name))
    elif is_concrete(v):
        if name == 'parents' and isinstance(v, APath):
            return tuple(v.parents)
        if v is not None and hasattr(v, name):
            f = cmp_method(I, v, name)
            if f is None:
                x = getattr(v, name)
                if plain(x):
                    return x
                f = lambda I, a, k: folded(I, name, x, a, k)
    if f is None:
        t = I.pytype(v)
        if isinstance(t, type) and t is not object and t.__module__ in ('builtins', 'datetime', 're', 'collections', 'functools') and name in dir(t) and not name.startswith('__'):
            # the object has it, the model does not
            raise Unsupported('%s.%s' % (t.__name__, name))
        I.raise_('AttributeError', "'%s' object has no attribute '%s'" % (t.__name__, name))
    return Builtin(name, f)


def _really_has(path, name):
    """Whether the standard library has this attribute."""
    import importlib
    mod, _, attr = path.rpartition('.')
    if mod not in ('itertools', 'functools', 'datetime', 'collections', 'inspect', 'asyncio', 'threading', 'operator', 'os.path', 're', 'time', 'builtins', ''):
        return False
    try:
        return hasattr(getattr(importlib.import_module(mod or 'builtins'), attr), name)
    except (ImportError, AttributeError):
        return False


def _wrap_re(I, v, name, a, k):
    return folded(I, ('re', v.pattern if isinstance(v, PATTERN) else repr(v), name), getattr(v, name), a, k)


def _object_method(name):
    if name == '__setattr__':
        def f(I, a, k):
            o = I.force(a[0])
            o.fields[a[1]] = a[2]
            I.event('set', obj=o, name=a[1], value=a[2], old=_MISSING)
        return f
    if name == '__init__':
        return lambda I, a, k: None
    if name == '__new__':
        return lambda I, a, k: Obj(a[0])
    if name == '__eq__':
        return lambda I, a, k: True if I.force(a[0]) is I.force(a[1]) else NOTIMPL
    if name == '__ne__':
        return lambda I, a, k: not (I.force(a[0]) is I.force(a[1]))
    if name == '__hash__':
        return lambda I, a, k: Sym(('hash', key_of(a[0])))
    if name in ('__str__', '__repr__'):
        return lambda I, a, k: Sym((name, key_of(a[0])))
    if name == '__getattribute__':
        return lambda I, a, k: I.getattr(a[0], a[1])
    return None


# ------------------------------------------------------------------ calls of built-in types
def call_pyclass(I, cls, a, k):
    t = cls.t
    a = [I.force(x) for x in a]
    if issubclass(t, BaseException):
        o = I.make_exc(cls, a)
        return o
    if t is str:
        if not a:
            return ''
        v = a[0]
        if isinstance(v, str):
            return v
        if isinstance(v, Obj):
            m = I.class_lookup(v.cls, '__str__')
            if m is _MISSING:
                m = I.class_lookup(v.cls, '__repr__')
            if m is not _MISSING:
                return I.call(I.bind(m, v), [], {})
            ar = v.fields.get('args')
            if isinstance(v.cls, PyClass) and isinstance(v.cls.t, type) and issubclass(v.cls.t, BaseException) and isinstance(ar, tuple) and plain(ar):
                try:
                    return str(v.cls.t(*ar))
                except Exception:
                    pass
            return Sym(('str', key_of(v)), meta={'notnone': True, 'strlike': True})
        if isinstance(v, Sym):
            if v.meta and v.meta.get('parts'):
                return v
            return Sym(('str', v.key), meta={'notnone': True, 'strlike': True})
        if plain(v):
            return str(v)
        return Sym(('str', key_of(v)), meta={'notnone': True})
    if t is _dt.timedelta and any(isinstance(I.force(x), Lin) for x in list(a) + list(k.values())):
        from fractions import Fraction
        per = {'weeks': 604800, 'days': 86400, 'hours': 3600, 'minutes': 60, 'seconds': 1,
               'milliseconds': Fraction(1, 1000), 'microseconds': Fraction(1, 10 ** 6)}
        kw = dict(zip(('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks'), a))
        kw.update(k)
        r = TD({}, 0)
        for n, x in kw.items():
            x = I.force(x)
            if not I.linable(x):
                raise Unsupported('timedelta(%s=%s)' % (n, short(x)))
            r = r.add(x.scale(per[n]) if isinstance(x, Lin) else x * per[n])
        return r if r.co else _dt.timedelta(seconds=float(r.const))
    if t is int or t is float:
        if not a:
            return t()
        v = a[0]
        if isinstance(v, (Lin, Sym)) and len(a) == 1:
            if isinstance(v, Sym):
                return Sym((t.__name__, v.key), meta={'notobj': True, 'notnone': True})
            if t is int and hasattr(I.world, 'floor'):
                return I.world.floor(I, v)
            return v
        return folded(I, t.__name__, t, a, k)
    if t is bool:
        return I.truth(a[0]) if a else False
    if t is list:
        return AList(list(I.iterate(a[0])) if a else [])
    if t is tuple:
        return tuple(I.iterate(a[0])) if a else ()
    if t in (set, frozenset):
        s = ASet(frozen=False)
        if a:
            for x in I.iterate(a[0]):
                set_add(I, s, x)
        s.frozen = t is frozenset
        return s
    if t is dict:
        d = ADict({})
        if a:
            for kk, v in mapping_items(I, a[0]):
                dict_set(I, d, kk, v)
        for kk, v in k.items():
            dict_set(I, d, kk, v)
        return d
    if t is type:
        if len(a) == 1:
            return I.type_of(a[0])
        return ClassVal(a[0], list(a[1]), dict(a[2].d))
    if t is object:
        return Obj(cls)
    if t is property:
        return PropVal(a[0] if a else k.get('fget'), a[1] if len(a) > 1 else k.get('fset'))
    if t is staticmethod:
        return StaticM(a[0])
    if t is classmethod:
        return ClassM(a[0])
    if t is super:
        return SuperVal(a[0], a[1])
    if t is slice:
        a = a + [None] * (3 - len(a)) if len(a) > 1 else [None, a[0], None]
        return SliceVal(*a)
    if t is range:
        if any(isinstance(x, (Sym, Lin)) for x in a):
            return Sym(('range',) + tuple(key_of(x) for x in a))
        return folded(I, 'range', range, a, k)
    if t is enumerate:
        st = a[1] if len(a) > 1 else k.get('start', 0)
        return AIter((i + st, x) for i, x in enumerate(I.iterate(a[0])))
    if t is zip:
        return AIter(zip(*[I.iterate(x) for x in a]))
    if t is map:
        return AIter(I.call(a[0], list(xs), {}) for xs in zip(*[I.iterate(x) for x in a[1:]]))
    if t is filter:
        return AIter(x for x in I.iterate(a[1]) if I.truth(I.call(a[0], [x], {}) if a[0] is not None else x))
    if t is reversed:
        return AIter(iter(list(I.iterate(a[0]))[::-1]))
    if t in (bytes, complex, bytearray):
        return folded(I, t.__name__, t, a, k)
    return folded(I, cls.name, t, a, k)


# ------------------------------------------------------------------ built-in functions
def b_send(I, it, x):
    if not hasattr(it.it, 'send'):
        I.raise_('AttributeError', 'send')
    if x is not None and inspect.getgeneratorstate(it.it) == 'GEN_CREATED':
        I.raise_('TypeError', "can't send non-None value to a just-started generator")
    try:
        return it.it.send(x)
    except StopIteration as e:
        _stop(I, e.value)


def _stop(I, v):
    raise AbsRaise(Obj(PyClass(StopIteration), {'args': () if v is None else (v,), 'value': v}), I.loc())


def b_next(I, a, k):
    it = I.force(a[0])
    if isinstance(it, AIter):
        try:
            return next(it.it)
        except StopIteration as e:
            if len(a) > 1:
                return a[1]
            _stop(I, e.value)
    if isinstance(it, Obj):
        m = I.class_lookup(it.cls, '__next__')
        if m is not _MISSING:
            try:
                return I.call(I.bind(m, it), [], {})
            except AbsRaise as e:
                if len(a) > 1 and I.exc_is(e.exc, 'StopIteration'):
                    return a[1]
                raise
    if isinstance(it, Sym):
        I.event('next', it=it)
        if it.meta and 'next' in it.meta:
            return it.meta['next'](I, a)
        return Sym(('next', it.key, I.fresh('n')))
    I.raise_('TypeError', 'not an iterator')


def _minmax(I, a, k, op):
    key = k.get('key')
    items = list(I.iterate(a[0])) if len(a) == 1 else a
    if not items:
        if 'default' in k:
            return k['default']
        I.raise_('ValueError', 'arg is an empty sequence')
    best = items[0]
    bk = I.call(key, [best], {}) if key is not None else best
    for x in items[1:]:
        xk = I.call(key, [x], {}) if key is not None else x
        if I.truth(I.compare(op, xk, bk)):
            best, bk = x, xk
    return best


def b_sum(I, a, k):
    tot = a[1] if len(a) > 1 else k.get('start', 0)
    for x in I.iterate(a[0]):
        x = I.force(x)
        if isinstance(x, Sym) and x.meta and x.meta.get('bool'):
            x = I.truth(x)
        tot = binop(I, 'Add', tot, x)
    return tot


def b_any(I, a, k):
    for x in I.iterate(a[0]):
        if I.truth(x):
            return True
    return False


def b_all(I, a, k):
    for x in I.iterate(a[0]):
        if not I.truth(x):
            return False
    return True


_ABSENT = object()


def b_getattr(I, a, k):
    n = I.force(a[1])
    if isinstance(n, Sym):
        if len(a) > 2:
            pass
        return Sym(('getattr', key_of(a[0]), n.key))
    if len(a) > 2:
        return I.getattr(a[0], n, a[2])
    return I.getattr(a[0], n)


def b_setattr(I, a, k):
    n = I.force(a[1])
    if isinstance(n, Sym):
        I.event('setattr?', obj=a[0], name=n, value=a[2])
        I.taint('setattr with unknown name')
        return
    I.setattr(a[0], n, a[2])


def b_hasattr(I, a, k):
    o = I.force(a[0])
    if isinstance(o, Sym):
        if o.meta and 'hasattr' in o.meta:
            return o.meta['hasattr'](a[1])
        if o.meta and 'getattr' in o.meta:
            r = o.meta['getattr'](I, o, a[1])
            return r is not _MISSING
        if a[1] in ('__len__', '__iter__', 'use_reference', '__rocketry__', '__invert__'):
            return False
        return I.decide(('hasattr', o.key, a[1]))
    if isinstance(o, Obj) and o.lazy and a[1] not in o.fields and I.class_lookup(o.cls, a[1]) is _MISSING:
        return I.decide(('hasattr', key_of(o), a[1]))
    r = I.getattr(o, I.force(a[1]), _ABSENT)
    return r is not _ABSENT


def b_repr(I, a, k):
    v = I.force(a[0])
    if isinstance(v, Obj):
        m = I.class_lookup(v.cls, '__repr__')
        if m is not _MISSING:
            return I.call(I.bind(m, v), [], {})
        return Sym(('repr', key_of(v)), meta={'notnone': True})
    if plain(v):
        return repr(v)
    if isinstance(v, (AList, ADict, ASet)) or isinstance(v, tuple):
        try:
            return repr(to_py(I, v))
        except _NotPlain:
            items = v.d.values() if isinstance(v, ADict) else (v if isinstance(v, tuple) else v.items)
            parts = [b_repr(I, [x], {}) for x in items]
            return Sym(('repr', key_of(v)), meta={'notnone': True, 'parts': parts})
    return Sym(('repr', key_of(v)), meta={'notnone': True})


def b_iter(I, a, k):
    return AIter(iter(I.iterate(a[0])))


def b_abs(I, a, k):
    v = I.force(a[0])
    if isinstance(v, Lin):
        return v if I.sign(v) >= 0 else v.scale(-1)
    if isinstance(v, Sym):
        return Sym(('abs', v.key), meta={'notobj': True, 'notnone': True})
    if isinstance(v, Obj):
        m = I.class_lookup(v.cls, '__abs__')
        if m is not _MISSING:
            return I.call(I.bind(m, v), [], {})
    return folded(I, 'abs', abs, [v], {})


def b_exec(I, a, k):
    I.event('exec', code=a[0], glob=a[1] if len(a) > 1 else None, loc=a[2] if len(a) > 2 else None)
    hook = I.ext.get('hook.exec')
    if hook is not None:
        return hook.fn(I, a, k)
    return None


def b_vars(I, a, k):
    return I.getattr(a[0], '__dict__')


def b_dir(I, a, k):
    return Sym(('dir', key_of(a[0])))


# ------------------------------------------------------------------ inspect.signature
class Empty:
    pass


def sig_params(I, f):
    """List of (name, kind, default) of a callable."""
    f = I.force(f)
    skip = 0
    while True:
        if isinstance(f, Bound):
            f = f.func
            skip += 1
            continue
        if isinstance(f, Partial):
            inner = sig_params(I, f.func)
            pos = [p for p in inner]
            out = []
            n = len(f.args)
            kwseen = False
            for p in pos:
                if p[1] in ('PO', 'PK') and n > 0:
                    n -= 1
                    continue
                if p[0] in f.kwargs:
                    out.append((p[0], 'KO', f.kwargs[p[0]]))
                    kwseen = True
                    continue
                if kwseen and p[1] == 'PK':
                    p = (p[0], 'KO', p[2])
                out.append(p)
            return out[skip:]
        if isinstance(f, (StaticM, ClassM)):
            f = f.f
            continue
        if isinstance(f, Func) and '__wrapped__' in f.attrs:
            f = I.force(f.attrs['__wrapped__'])
            continue
        if isinstance(f, ClassVal):
            m = I.class_lookup(f, '__init__')
            if m is _MISSING:
                return []
            f = m
            skip += 1
            continue
        if isinstance(f, Obj):
            m = I.class_lookup(f.cls, '__call__')
            if m is _MISSING:
                I.raise_('TypeError', 'is not a callable object')
            f = m
            skip += 1
            continue
        break
    if isinstance(f, Func):
        a = f.node.args
        out = []
        pos = a.posonlyargs + a.args
        nd = len(f.defaults)
        for i, x in enumerate(pos):
            j = i - (len(pos) - nd)
            out.append((x.arg, 'PO' if i < len(a.posonlyargs) else 'PK', f.defaults[j] if j >= 0 else Empty))
        out = out[skip:]
        if a.vararg:
            out.append((a.vararg.arg, 'VP', Empty))
        for x in a.kwonlyargs:
            out.append((x.arg, 'KO', f.kw_defaults.get(x.arg, Empty)))
        if a.kwarg:
            out.append((a.kwarg.arg, 'VK', Empty))
        return out
    if isinstance(f, Builtin):
        if f.params is not None:
            return list(f.params)[skip:]
        return [('args', 'VP', Empty), ('kwargs', 'VK', Empty)]
    if isinstance(f, Sym):
        if f.meta and 'params' in f.meta:
            return list(f.meta['params'])[skip:]
        return [('args', 'VP', Empty), ('kwargs', 'VK', Empty)]
    return [('args', 'VP', Empty), ('kwargs', 'VK', Empty)]


KINDS = {'PO': 'POSITIONAL_ONLY', 'PK': 'POSITIONAL_OR_KEYWORD', 'VP': 'VAR_POSITIONAL', 'KO': 'KEYWORD_ONLY', 'VK': 'VAR_KEYWORD'}


def install(I):
    B = I.builtins
    E = I.ext
    for t in (str, int, float, bool, list, tuple, set, frozenset, dict, type, object, property, staticmethod,
              classmethod, super, slice, range, enumerate, zip, map, filter, reversed, bytes, complex, bytearray):
        B[t.__name__] = PyClass(t)
    for n, t in BUILTIN_EXC.items():
        B[n] = PyClass(t)
    B['NotImplemented'] = NOTIMPL
    B['Ellipsis'] = ...
    B['__debug__'] = True
    B['__name__'] = 'module'

    def bf(name, fn):
        B[name] = Builtin(name, fn)
    bf('len', lambda I, a, k: I.length(a[0]))
    bf('any', b_any)
    bf('all', b_all)
    bf('sum', b_sum)
    bf('min', lambda I, a, k: _minmax(I, a, k, 'lt'))
    bf('max', lambda I, a, k: _minmax(I, a, k, 'gt'))
    bf('sorted', lambda I, a, k: AList(_sort(I, list(I.iterate(a[0])), k.get('key'), k.get('reverse', False))))
    bf('isinstance', lambda I, a, k: I.isinstance(a[0], a[1]))
    bf('issubclass', lambda I, a, k: I.is_subclass(a[0], a[1]))
    bf('getattr', b_getattr)
    bf('setattr', b_setattr)
    bf('hasattr', b_hasattr)
    bf('delattr', lambda I, a, k: I.delattr(a[0], I.force(a[1])))
    bf('iter', b_iter)
    bf('next', b_next)
    bf('print', lambda I, a, k: None)
    bf('repr', b_repr)
    bf('ascii', b_repr)
    bf('id', lambda I, a, k: Sym(('id', key_of(I.force(a[0]))), meta={'notnone': True, 'notobj': True, 'truthy': True}))
    bf('hash', lambda I, a, k: Sym(('hash', key_of(I.force(a[0]))), meta={'notnone': True, 'notobj': True}))
    bf('callable', lambda I, a, k: I.is_callable(I.force(a[0])))
    bf('abs', b_abs)
    bf('round', lambda I, a, k: folded(I, 'round', round, a, k))
    bf('divmod', lambda I, a, k: folded(I, 'divmod', divmod, a, k))
    bf('pow', lambda I, a, k: folded(I, 'pow', pow, a, k))
    bf('ord', lambda I, a, k: folded(I, 'ord', ord, a, k))
    bf('chr', lambda I, a, k: folded(I, 'chr', chr, a, k))
    bf('format', lambda I, a, k: folded(I, 'format', format, a, k))
    bf('exec', b_exec)
    bf('eval', b_exec)
    bf('vars', b_vars)
    bf('dir', b_dir)
    bf('globals', lambda I, a, k: ADict(I.frames[-1].module.ns))
    bf('locals', lambda I, a, k: ADict(dict(I.frames[-1].locals)))
    bf('__import__', lambda I, a, k: I.extref(a[0]))
    bf('open', lambda I, a, k: Sym(('extcall', 'open', key_of(a[0]))))

    def ef(path, fn, params=None):
        E[path] = Builtin(path, fn, params)

    # typing & abc
    E['typing.TYPE_CHECKING'] = False
    ef('typing.cast', lambda I, a, k: a[1])
    ef('abc.abstractmethod', lambda I, a, k: a[0])
    E['abc.ABC'] = ClassVal('ABC', [], {}, ext=True, path='abc.ABC')
    E['typing.Pattern'] = PyClass(PATTERN, 'Pattern')
    E['re.Pattern'] = PyClass(PATTERN, 'Pattern')
    E['re.Match'] = PyClass(MATCH, 'Match')

    # functools
    def total_ordering(I, a, k):
        c = a[0]
        have = [n for n in ('__lt__', '__le__', '__gt__', '__ge__') if n in c.ns]
        if not have:
            I.raise_('ValueError', 'must define at least one ordering operation')
        base = have[0]

        def via(op):
            def f(I, aa, kk):
                x, y = aa
                b = I.truth(I.call(I.getattr(x, base), [y], {}))
                e = I.eq(x, y)
                less = {'__lt__': b, '__le__': b and not e, '__gt__': not b and not e, '__ge__': not b}[base]
                return {'__lt__': less, '__le__': less or e, '__gt__': not less and not e, '__ge__': not less}[op]
            return f
        for op in ('__lt__', '__le__', '__gt__', '__ge__'):
            if op not in c.ns:
                c.ns[op] = Builtin(op, via(op))
        return c

    def partial(I, a, k):
        f = I.force(a[0])
        if isinstance(f, Partial):
            return Partial(f.func, list(f.args) + list(a[1:]), {**f.kwargs, **k})
        return Partial(f, list(a[1:]), dict(k))
    ef('functools.partial', partial)

    def reduce(I, a, k):
        it = iter(list(I.iterate(a[1])))
        if len(a) > 2:
            acc = a[2]
        else:
            try:
                acc = next(it)
            except StopIteration:
                I.raise_('TypeError', 'reduce() of empty iterable')
        for x in it:
            acc = I.call(a[0], [acc, x], {})
        return acc
    ef('functools.reduce', reduce)
    def update_wrapper(I, a, k):
        w, f = I.force(a[0]), I.force(a[1])
        if isinstance(w, (Func, Builtin)):
            f = f.func if isinstance(f, Bound) else f
            if isinstance(f, (Func, Builtin)):
                w.attrs.update(f.attrs)
                w.attrs['__name__'] = w.attrs['__qualname__'] = f.attrs.get('__name__', f.name)
            w.attrs['__wrapped__'] = a[1]
        return a[0]
    ef('functools.update_wrapper', update_wrapper)
    ef('functools.wraps', lambda I, a, k: Builtin('wraps', lambda I, b, kk: update_wrapper(I, [b[0], a[0]], {})))

    def memoized(I, f):
        b = Builtin('cached(%s)' % getattr(f, 'name', '?'), None)
        b.attrs['__cache__'] = ADict({})
        b.attrs['__wrapped__'] = f

        def call(I, a, k):
            d = b.attrs['__cache__']
            key = tuple(a) + (('kw',) + tuple(k.items()) if k else ())
            kk = I.dict_find(d, key)
            if kk is not _MISSING:
                return d.d[kk]
            r = I.call(f, a, k)
            dict_set(I, d, key, r)
            return r
        b.fn = call
        b.attrs['cache_clear'] = Builtin('cache_clear', lambda I, a, k: b.attrs['__cache__'].d.clear())
        return b
    ef('functools.lru_cache', lambda I, a, k: memoized(I, I.force(a[0])) if a and I.is_callable(I.force(a[0])) else Builtin('lru', lambda I, b, kk: memoized(I, b[0])))
    ef('functools.cache', lambda I, a, k: memoized(I, a[0]))
    ef('functools.cached_property', lambda I, a, k: CachedProp(I.force(a[0])))
    ef('functools.total_ordering', total_ordering)
    def singledispatch(I, a, k):
        reg = []

        def narrower(c, d):
            if isinstance(c, ClassVal):
                return d in I.mro(c) or isinstance(d, PyClass) and d.t is object
            return isinstance(c, PyClass) and isinstance(d, PyClass) and issubclass(c.t, d.t)

        def dispatch(I, b, kk):
            fits = [(c, f) for c, f in reg if I.isinstance(b[0], c)]
            for c, f in reversed(fits):
                if all(narrower(c, d) for d, _ in fits):
                    return I.call(f, list(b), kk)
            return I.call(a[0], list(b), kk)

        def register(I, b, kk):
            x = I.force(b[0])
            if len(b) > 1:
                reg.append((x, I.force(b[1])))
                return b[1]
            if isinstance(x, Func):
                ann = x.node.args.args[0].annotation
                fr = x.closure if getattr(x, 'closure', None) is not None else Frame(x.module)
                reg.append((I.force(I.eval(ann, fr)), x))
                return x
            return Builtin('register', lambda I, c, kk: (reg.append((x, I.force(c[0]))), c[0])[1])
        d = Builtin('singledispatch', dispatch)
        d.attrs['register'] = Builtin('register', register)
        return d
    ef('functools.singledispatch', singledispatch)
    # itertools
    ef('itertools.chain', lambda I, a, k: AIter(x for it in a for x in I.iterate(it)))
    ef('itertools.chain.from_iterable', lambda I, a, k: AIter(x for it in I.iterate(a[0]) for x in I.iterate(it)))
    ef('itertools.combinations', lambda I, a, k: AIter(_it.combinations(list(I.iterate(a[0])), I.force(a[1]))))
    ef('itertools.permutations', lambda I, a, k: AIter(_it.permutations(list(I.iterate(a[0])), *[I.force(x) for x in a[1:]])))
    ef('itertools.product', lambda I, a, k: AIter(_it.product(*[list(I.iterate(x)) for x in a])))
    ef('itertools.count', lambda I, a, k: AIter(_it.count(*a)))
    ef('itertools.islice', lambda I, a, k: AIter(_it.islice(I.iterate(a[0]), *[I.force(x) for x in a[1:]])))
    ef('itertools.takewhile', lambda I, a, k: AIter(_it.takewhile(lambda x: I.truth(I.call(a[0], [x], {})), I.iterate(a[1]))))
    ef('itertools.filterfalse', lambda I, a, k: AIter(x for x in I.iterate(a[1]) if not I.truth(I.call(a[0], [x], {}))))
    ef('itertools.repeat', lambda I, a, k: AIter(_it.repeat(*[I.force(x) if i else x for i, x in enumerate(a)])))
    ef('itertools.dropwhile', lambda I, a, k: AIter(_it.dropwhile(lambda x: I.truth(I.call(a[0], [x], {})), I.iterate(a[1]))))
    ef('itertools.zip_longest', lambda I, a, k: AIter(_it.zip_longest(*[I.iterate(x) for x in a], fillvalue=k.get('fillvalue'))))
    ef('itertools.starmap', lambda I, a, k: AIter(I.call(a[0], list(I.iterate(x)), {}) for x in I.iterate(a[1])))
    ef('itertools.compress', lambda I, a, k: AIter(x for x, s in zip(I.iterate(a[0]), I.iterate(a[1])) if I.truth(s)))
    ef('itertools.cycle', lambda I, a, k: AIter(_it.cycle(I.iterate(a[0]))))
    ef('itertools.tee', lambda I, a, k: tuple(AIter(x) for x in _it.tee(I.iterate(a[0]), *[I.force(x) for x in a[1:]])))
    ef('itertools.pairwise', lambda I, a, k: (lambda xs: AIter(zip(xs, xs[1:])))(list(I.iterate(a[0]))))

    def accumulate(I, a, k):
        f = a[1] if len(a) > 1 else k.get('func')
        op = (lambda x, y: I.call(f, [x, y], {})) if f is not None else (lambda x, y: binop(I, 'Add', x, y))
        kw = {'initial': k['initial']} if k.get('initial') is not None else {}
        return AIter(_it.accumulate(I.iterate(a[0]), op, **kw))
    ef('itertools.accumulate', accumulate)

    def groupby(I, a, k):
        f = a[1] if len(a) > 1 else k.get('key')
        out = []
        for x in I.iterate(a[0]):
            key = I.call(f, [x], {}) if f is not None else x
            if not out or not I.eq(out[-1][0], key):
                out.append((key, []))
            out[-1][1].append(x)
        return AIter((key, AIter(iter(xs))) for key, xs in out)
    ef('itertools.groupby', groupby)
    # copy
    ef('copy.copy', lambda I, a, k: I.copy(a[0]))
    ef('copy.deepcopy', lambda I, a, k: I.deepcopy(I.force(a[0])))
    # heapq, bisect
    class Key:
        def __init__(self, v):
            self.v = v

        def __lt__(self, o):
            return I.truth(I.compare('lt', self.v, o.v))

    def heap(fn, n=1):
        def f(I, a, k):
            h = I.force(a[0])
            items = [Key(x) for x in h.items]
            try:
                r = fn(items, *[Key(x) for x in a[1:]])
            except IndexError as e:
                I.raise_('IndexError', str(e))
            finally:
                h.items[:] = [x.v for x in items]
            return r.v if isinstance(r, Key) else r
        return f
    for n in ('heapify', 'heappush', 'heappop', 'heappushpop', 'heapreplace'):
        ef('heapq.' + n, heap(getattr(_heapq, n)))
    for n, rev in (('nsmallest', False), ('nlargest', True)):
        def nbest(I, a, k, rev=rev):
            key = k.get('key') or (a[2] if len(a) > 2 else None)
            items = sorted(I.iterate(a[1]), key=lambda x: Key(I.call(key, [x], {}) if key is not None else x), reverse=rev)
            return AList(items[:I.force(a[0])])
        ef('heapq.' + n, nbest)
    for n in ('bisect', 'bisect_left', 'bisect_right', 'insort', 'insort_left', 'insort_right'):
        def bis(I, a, k, n=n):
            xs, key = I.force(a[0]), k.get('key')
            g = lambda x: Key(I.call(key, [x], {}) if key is not None else x)
            at = getattr(_bisect, n.replace('insort', 'bisect'))([g(x) for x in I.iterate(xs)], g(a[1]) if n.startswith('insort') else Key(a[1]))
            if n.startswith('insort'):
                xs.items.insert(at, a[1])
                return None
            return at
        ef('bisect.' + n, bis)
    ns_cls = ClassVal('SimpleNamespace', [], {}, path='types.SimpleNamespace')
    ns_cls.ns['__init__'] = Builtin('__init__', lambda I, a, k: a[0].fields.update(k))
    ns_cls.ns['__eq__'] = Builtin('__eq__', lambda I, a, k: isinstance(I.force(a[1]), Obj) and I.eq(ADict(dict(a[0].fields)), ADict(dict(I.force(a[1]).fields))))
    E['types.SimpleNamespace'] = ns_cls
    cm_cls = ClassVal('ChainMap', [], {}, path='collections.ChainMap')

    def cm_all(I, o):
        d = ADict({})
        for m in reversed(I.force(o.fields['maps']).items):
            for key in I.iterate(m):
                dict_set(I, d, key, getitem(I, m, key))
        return d
    cm_cls.ns['__init__'] = Builtin('__init__', lambda I, a, k: a[0].fields.update(maps=AList(list(a[1:]) or [ADict({})])))
    cm_cls.ns['__getitem__'] = Builtin('__getitem__', lambda I, a, k: getitem(I, cm_all(I, a[0]), a[1]))
    cm_cls.ns['__contains__'] = Builtin('__contains__', lambda I, a, k: I.contains(a[1], cm_all(I, a[0])))
    cm_cls.ns['__iter__'] = Builtin('__iter__', lambda I, a, k: AIter(iter(list(cm_all(I, a[0]).d))))
    cm_cls.ns['__len__'] = Builtin('__len__', lambda I, a, k: len(cm_all(I, a[0]).d))
    cm_cls.ns['__setitem__'] = Builtin('__setitem__', lambda I, a, k: setitem(I, I.force(a[0].fields['maps']).items[0], a[1], a[2]))
    cm_cls.ns['__delitem__'] = Builtin('__delitem__', lambda I, a, k: delitem(I, I.force(a[0].fields['maps']).items[0], a[1]))
    for n in ('keys', 'values', 'items', 'get'):
        cm_cls.ns[n] = Builtin(n, lambda I, a, k, n=n: I.call(I.getattr(cm_all(I, a[0]), n), list(a[1:]), k))
    E['collections.ChainMap'] = cm_cls
    # operator
    for n, op in (('add', 'Add'), ('sub', 'Sub'), ('or_', 'BitOr'), ('and_', 'BitAnd'), ('mul', 'Mult'),
                  ('mod', 'Mod'), ('floordiv', 'FloorDiv'), ('truediv', 'Div'), ('pow', 'Pow'), ('xor', 'BitXor')):
        ef('operator.' + n, lambda I, a, k, op=op: binop(I, op, a[0], a[1]))
    for n in ('lt', 'le', 'gt', 'ge'):
        ef('operator.' + n, lambda I, a, k, n=n: I.compare(n, a[0], a[1]))
    ef('operator.eq', lambda I, a, k: I.eq_val(a[0], a[1]))
    ef('operator.ne', lambda I, a, k: not I.eq(a[0], a[1]))
    ef('operator.contains', lambda I, a, k: I.contains(a[1], a[0]))
    ef('operator.is_', lambda I, a, k: I.identical_q(a[0], a[1]))
    ef('operator.is_not', lambda I, a, k: not I.identical_q(a[0], a[1]))
    ef('operator.truth', lambda I, a, k: I.truth(a[0]))
    ef('operator.getitem', lambda I, a, k: getitem(I, a[0], a[1]))
    ef('operator.not_', lambda I, a, k: not I.truth(a[0]))
    ef('operator.attrgetter', lambda I, a, k: Builtin('attrgetter', lambda I, b, kk: _attrget(I, b[0], a)))
    ef('operator.itemgetter', lambda I, a, k: Builtin('itemgetter', lambda I, b, kk: getitem(I, b[0], a[0]) if len(a) == 1 else tuple(getitem(I, b[0], x) for x in a)))
    ef('operator.methodcaller', lambda I, a, k: Builtin('methodcaller', lambda I, b, kk: I.call(I.getattr(b[0], a[0]), a[1:], k)))

    ef('operator.setitem', lambda I, a, k: setitem(I, a[0], a[1], a[2]))
    ef('operator.delitem', lambda I, a, k: delitem(I, a[0], a[1]))
    ef('operator.neg', lambda I, a, k: unop(I, 'USub', a[0]))
    ef('operator.inv', lambda I, a, k: unop(I, 'Invert', a[0]))
    ef('operator.invert', lambda I, a, k: unop(I, 'Invert', a[0]))
    for n in [n for n in E if n.startswith('operator.')]:
        n = n.split('.', 1)[1]
        if n not in ('attrgetter', 'itemgetter', 'methodcaller', 'is_', 'is_not', 'truth'):
            E['operator.__%s__' % n.rstrip('_')] = E['operator.' + n]

    def _attrget(I, o, names):
        out = []
        for n in names:
            v = o
            for p in n.split('.'):
                v = I.getattr(v, p)
            out.append(v)
        return out[0] if len(out) == 1 else tuple(out)

    # collections
    mapping = ClassVal('Mapping', [], {}, ext=True, path='collections.abc.Mapping')
    E['collections.abc.Mapping'] = mapping
    E['typing.Mapping'] = mapping

    def mp_get(I, a, k):
        try:
            return getitem(I, a[0], a[1])
        except AbsRaise as e:
            if I.exc_is(e.exc, 'KeyError'):
                return a[2] if len(a) > 2 else k.get('default')
            raise

    def mp_contains(I, a, k):
        try:
            getitem(I, a[0], a[1])
            return True
        except AbsRaise as e:
            if I.exc_is(e.exc, 'KeyError'):
                return False
            raise
    mapping.ns['get'] = Builtin('Mapping.get', mp_get)
    mapping.ns['__contains__'] = Builtin('Mapping.__contains__', mp_contains)
    mapping.ns['keys'] = Builtin('Mapping.keys', lambda I, a, k: AList(list(I.iterate(a[0]))))
    mapping.ns['items'] = Builtin('Mapping.items', lambda I, a, k: AList([(x, getitem(I, a[0], x)) for x in I.iterate(a[0])]))
    mapping.ns['values'] = Builtin('Mapping.values', lambda I, a, k: AList([getitem(I, a[0], x) for x in I.iterate(a[0])]))
    E['collections.OrderedDict'] = PyClass(dict)

    def defaultdict(I, a, k):
        d = ADict(dict(mapping_items(I, a[1])) if len(a) > 1 else {})
        d.d.update(k)
        d.factory = I.force(a[0]) if a else None
        return d
    ef('collections.defaultdict', defaultdict)

    def deque(I, a, k):
        n = I.force(k.get('maxlen', a[1] if len(a) > 1 else None))
        xs = list(I.iterate(a[0])) if a else []
        L = AList(xs[max(len(xs) - n, 0):] if isinstance(n, int) else xs, label='deque')
        L.maxlen = n if isinstance(n, int) else None
        return L
    ef('collections.deque', deque)

    def counter(I, a, k):
        d = ADict({})
        d.factory = Builtin('int', lambda I, a, k: 0)
        for x in (I.iterate(a[0]) if a else ()):
            dict_set(I, d, x, binop(I, 'Add', getitem(I, d, x), 1))
        return d
    ef('collections.Counter', counter)

    def namedtuple(I, a, k):
        c = I.force(a[0])
        if isinstance(c, ClassVal):
            names = list(c.annotations)
        else:
            names = I.force(a[1])
            names = names.replace(',', ' ').split() if isinstance(names, str) else [I.force(x) for x in I.iterate(names)]
            c = ClassVal(c, [], {}, path='collections.namedtuple.' + str(c))
            c.annotations = {n: None for n in names}
            defaults = [x for x in I.iterate(k['defaults'])] if k.get('defaults') is not None else []
            c.ns.update(zip(names[len(names) - len(defaults):], defaults))
        c.dataclass = {}
        tup = lambda o: tuple(o.fields[n] for n in names) if isinstance(o, Obj) and all(n in o.fields for n in names) else tuple(I.iterate(o))
        ns = {}
        ns['__iter__'] = Builtin('__iter__', lambda I, b, kk: AIter(iter([b[0].fields[n] for n in names])))
        ns['__getitem__'] = Builtin('__getitem__', lambda I, b, kk: getitem(I, tuple(b[0].fields[n] for n in names), b[1]))
        ns['__len__'] = Builtin('__len__', lambda I, b, kk: len(names))
        ns['__eq__'] = Builtin('__eq__', lambda I, b, kk: I.eq(tup(b[0]), tup(I.force(b[1]))))
        for op in ('lt', 'le', 'gt', 'ge'):
            ns['__%s__' % op] = Builtin(op, lambda I, b, kk, op=op: I.compare(op, tup(b[0]), tup(I.force(b[1]))))
        ns['_asdict'] = Builtin('_asdict', lambda I, b, kk: ADict({n: b[0].fields[n] for n in names}))
        ns['_replace'] = Builtin('_replace', lambda I, b, kk: I.instantiate(c, [], {n: kk.get(n, b[0].fields[n]) for n in names}))
        ns['_fields'] = tuple(names)
        for n, v in ns.items():
            c.ns.setdefault(n, v)
        return c
    ef('collections.namedtuple', namedtuple)

    # dataclasses
    def dataclass(I, a, k):
        if a:
            a[0].dataclass = dict(k)
            return a[0]
        return Builtin('dataclass', lambda I, b, kk: dataclass(I, b, k))
    ef('dataclasses.dataclass', dataclass)
    ef('dataclasses.field', lambda I, a, k: FieldInfo(k.get('default', ...), k.get('default_factory')))

    def dc_replace(I, a, k):
        o = I.force(a[0])
        vals = {n: k.get(n, o.fields.get(n)) for n, _ in I.dc_fields(o.cls)}
        return I.instantiate(o.cls, [], vals)
    ef('dataclasses.replace', dc_replace)
    fc = ClassVal('Field', [], {}, ext=True, path='dataclasses.Field')

    def dc_fields(I, a, k):
        o = I.force(a[0])
        c = o.cls if isinstance(o, Obj) else o
        return tuple(Obj(fc, {'name': n, 'default': None if d is _MISSING else d}) for n, d in I.dc_fields(c))
    ef('dataclasses.fields', dc_fields)
    ef('dataclasses.asdict', lambda I, a, k: ADict({n: I.force(a[0]).fields.get(n) for n, _ in I.dc_fields(I.force(a[0]).cls)}))

    # pydantic
    bm = ClassVal('BaseModel', [], {}, ext=True, path='pydantic.BaseModel')
    E['pydantic.BaseModel'] = bm

    def bm_init(I, a, k):
        I.pyd_init(a[0], k)
    bm.ns['__init__'] = Builtin('BaseModel.__init__', bm_init)
    bm.pyd = {'own': {}, 'defaults': {}}

    def bm_copy(I, a, k):
        o = a[0]
        n = Obj(o.cls, dict(o.fields), label='copy(%s)' % o.label)
        ex = k.get('exclude')
        if ex is not None:
            for x in list(I.iterate(ex)):
                n.fields.pop(x, None)
        inc = k.get('include')
        if inc is not None:
            keep = list(I.iterate(inc))
            for x in list(n.fields):
                if x not in keep:
                    del n.fields[x]
        up = k.get('update')
        if up is not None:
            for kk, v in mapping_items(I, up):
                n.fields[kk] = v
        if k.get('deep') is True:
            n.fields = {x: I.deepcopy(y) for x, y in n.fields.items()}
        return n
    bm.ns['copy'] = Builtin('BaseModel.copy', bm_copy)

    def bm_state(I, a, k):
        o = a[0]
        f = I.pyd_fields(o.cls)
        pub = ADict(o.fields)               # the __dict__ of the object itself, as in pydantic
        priv = ADict({n: v for n, v in o.fields.items() if n in f and f[n].private})
        return ADict({'__dict__': pub, '__fields_set__': ASet([n for n in pub.d if not (n in f and f[n].private)]), '__private_attribute_values__': priv})
    bm.ns['__getstate__'] = Builtin('BaseModel.__getstate__', bm_state)

    def bm_dict(I, a, k):
        o = a[0]
        f = I.pyd_fields(o.cls)
        ex = list(I.iterate(k['exclude'])) if k.get('exclude') is not None else []
        return ADict({n: v for n, v in o.fields.items() if not (n in f and f[n].private) and n not in ex})
    bm.ns['dict'] = Builtin('BaseModel.dict', bm_dict)

    def bm_json(I, a, k):
        I.event('json', obj=a[0], kwargs=dict(k))
        return Sym(('json', key_of(a[0])), meta={'notnone': True})
    bm.ns['json'] = Builtin('BaseModel.json', bm_json)
    bm.ns['update_forward_refs'] = ClassM(Builtin('BaseModel.update_forward_refs', lambda I, a, k: None))
    E['pydantic.ValidationError'] = ClassVal('ValidationError', [PyClass(ValueError)], {}, ext=True, path='pydantic.ValidationError')

    def validator(I, a, k):
        return Builtin('validator', lambda I, b, kk: ValidatorVal(b[0].f if isinstance(b[0], ClassM) else b[0], [I.force(x) for x in a], bool(k.get('pre', False)), bool(k.get('always', False))))
    ef('pydantic.validator', validator)

    def root_validator(I, a, k):
        if a and isinstance(a[0], (Func, ClassM)):
            return ValidatorVal(a[0].f if isinstance(a[0], ClassM) else a[0], [], False, root=True)
        return Builtin('root_validator', lambda I, b, kk: ValidatorVal(b[0].f if isinstance(b[0], ClassM) else b[0], [], bool(k.get('pre', False)), root=True))
    ef('pydantic.root_validator', root_validator)

    def field(I, a, k):
        return FieldInfo(a[0] if a else k.get('default', ...), k.get('default_factory'))
    ef('pydantic.Field', field)
    ef('pydantic.PrivateAttr', lambda I, a, k: FieldInfo(a[0] if a else k.get('default', _MISSING), k.get('default_factory'), True))

    # inspect
    ef('inspect.iscoroutinefunction', lambda I, a, k: _iscoro(I, a[0]))
    ef('asyncio.iscoroutine', lambda I, a, k: isinstance(I.force(a[0]), Coro))
    ef('asyncio.iscoroutinefunction', lambda I, a, k: _iscoro(I, a[0]))

    def _iscoro(I, f):
        import ast
        f = I.force(f)
        while isinstance(f, (Bound, Partial, StaticM, ClassM)):
            f = f.f if isinstance(f, (StaticM, ClassM)) else f.func
        if isinstance(f, Func):
            return isinstance(f.node, ast.AsyncFunctionDef)
        if isinstance(f, Sym):
            if f.meta and 'iscoro' in f.meta:
                return I.truth(f.meta['iscoro'])
            return I.decide(('iscoro', f.key))
        if isinstance(f, Builtin):
            return f.attrs.get('iscoro', False)
        return False

    def _isgen(I, a, k):
        f = I.force(a[0])
        while isinstance(f, (Bound, Partial)):
            f = f.func
        if isinstance(f, Func):
            return I.is_generator(f)
        if isinstance(f, Sym):
            if f.meta and 'isgen' in f.meta:
                return I.truth(f.meta['isgen'])
            return I.decide(('isgen', f.key))
        if isinstance(f, Builtin):
            return f.attrs.get('isgen', False)
        return False
    ef('inspect.isgeneratorfunction', _isgen)
    ef('inspect.isawaitable', lambda I, a, k: isinstance(I.force(a[0]), Coro))
    ef('inspect.iscoroutine', lambda I, a, k: isinstance(I.force(a[0]), Coro))
    ef('inspect.isclass', lambda I, a, k: isinstance(I.force(a[0]), (ClassVal, PyClass)))
    ef('inspect.isfunction', lambda I, a, k: isinstance(I.force(a[0]), Func))
    ef('inspect.ismethod', lambda I, a, k: isinstance(I.force(a[0]), Bound))
    sigc = ClassVal('Signature', [], {}, ext=True, path='inspect.Signature')
    parc = ClassVal('Parameter', [], {}, ext=True, path='inspect.Parameter')
    E['inspect.Signature'] = sigc
    E['inspect.Parameter'] = parc
    for kk, kn in KINDS.items():
        parc.ns[kn] = 'kind:' + kk
    parc.ns['empty'] = Obj(parc, label='inspect.empty')
    sigc.ns['empty'] = parc.ns['empty']
    E['inspect._empty'] = parc.ns['empty']

    def signature(I, a, k):
        f = I.force(a[0])
        if not I.is_callable(f):
            I.raise_('TypeError', 'is not a callable object')
        d = {}
        for n, kind, dflt in sig_params(I, f):
            d[n] = Obj(parc, {'name': n, 'kind': 'kind:' + kind, 'default': parc.ns['empty'] if dflt is Empty else dflt,
                              'annotation': parc.ns['empty']}, label='param:%s' % n)
        return Obj(sigc, {'parameters': ADict(d)}, label='signature')
    ef('inspect.signature', signature)

    # constants, constant folding
    ef('platform.system', lambda I, a, k: Choice('platform.system()', ['Linux', 'Windows']) if getattr(I.world, 'any_platform', False) else 'Linux')
    ef('re.compile', lambda I, a, k: folded(I, 're.compile', _re.compile, a, k))
    for n in ('search', 'match', 'fullmatch', 'split', 'sub', 'findall', 'escape'):
        ef('re.' + n, lambda I, a, k, n=n: folded(I, 're.' + n, getattr(_re, n), a, k))
    for n in ('IGNORECASE', 'I', 'DOTALL', 'S', 'MULTILINE', 'M', 'VERBOSE', 'X'):
        E['re.' + n] = getattr(_re, n)
    for t in (_dt.datetime, _dt.timedelta, _dt.date, _dt.time, _dt.timezone, _dt.tzinfo):
        E['datetime.' + t.__name__] = PyClass(t)
    E['datetime.timezone.utc'] = _dt.timezone.utc
    ef('datetime.now', lambda I, a, k: (I.event('clock', path='datetime.datetime.now'), Sym('clock', meta={'notnone': True}))[1])
    ef('datetime.utcnow', lambda I, a, k: (I.event('clock', path='datetime.datetime.utcnow'), Sym('clock', meta={'notnone': True}))[1])
    ef('datetime.today', lambda I, a, k: (I.event('clock', path='datetime.datetime.today'), Sym('clock', meta={'notnone': True}))[1])
    for _n in ('monotonic', 'perf_counter', 'time_ns', 'monotonic_ns', 'process_time'):
        ef('time.' + _n, lambda I, a, k, _n=_n: (I.event('clock', path='time.' + _n), Sym(('lib', 'time.' + _n, I.fresh('t')), meta={'notnone': True, 'notobj': True}))[1])
    ef('time.time', lambda I, a, k: (I.event('clock', path='time.time'), Sym(('lib', 'time.time', I.fresh('t')), meta={'notnone': True, 'notobj': True}))[1])
    def fromts(I, a, k):
        v = I.force(a[0])
        if isinstance(v, Lin) and getattr(I.world, 'datetimes', False):
            return DT(v, I.force(k.get('tz', a[1] if len(a) > 1 else None)))
        return old_fromts(I, a, k)
    old_fromts = (lambda I, a, k: I.force(a[0]) if isinstance(I.force(a[0]), (Lin,)) else Sym(('lib', 'fromtimestamp', key_of(I.force(a[0])), key_of(I.force(k.get('tz', a[1] if len(a) > 1 else None)))), meta={'notnone': True, 'notobj': True}))
    ef('datetime.fromtimestamp', fromts)
    ef('calendar.monthrange', lambda I, a, k: folded(I, 'calendar.monthrange', _calendar.monthrange, a, k))
    ef('calendar.isleap', lambda I, a, k: folded(I, 'calendar.isleap', _calendar.isleap, a, k))
    for n in ('floor', 'ceil', 'trunc'):
        ef('math.' + n, lambda I, a, k, n=n: folded(I, 'math.' + n, getattr(_math, n), a, k))
    E['math.inf'] = _math.inf
    ef('warnings.warn', lambda I, a, k: I.event('warn', args=tuple(a)) and None)

    # exceptions of the library
    E['queue.Empty'] = PyClass(_queue.Empty)
    E['queue.Full'] = PyClass(_queue.Full)
    E['pickle.PicklingError'] = PyClass(_pickle.PicklingError)

    def parse_time(I, a, k):
        s = I.force(a[0])
        m = _re.fullmatch(r'(\d{1,2}):(\d\d)(?::(\d\d)(?:\.(\d{1,6}))?)?', s) if isinstance(s, str) and len(a) == 1 and not k else None
        if m and int(m[1]) < 24 and int(m[2]) < 60 and int(m[3] or 0) < 60:
            # only the time is given: the date is today's
            return _dt.datetime(2023, 5, 18, int(m[1]), int(m[2]), int(m[3] or 0), int((m[4] or '0').ljust(6, '0')))
        return Sym(('extcall', 'dateutil.parser.parse', key_of(s), I.fresh('p')), meta={'notnone': True})
    ef('dateutil.parser.parse', parse_time)

    def dumps(I, a, k):
        if not I.world.pickleable(I, a[0]):
            I.raise_(I.ext['pickle.PicklingError'])
        return Sym(('extcall', 'pickle.dumps', I.fresh('p')), meta={'notnone': True})
    ef('pickle.dumps', dumps)
    E['asyncio.CancelledError'] = PyClass(_asyncio.CancelledError)
    E['asyncio.exceptions.CancelledError'] = PyClass(_asyncio.CancelledError)
    E['asyncio.TimeoutError'] = PyClass(_asyncio.TimeoutError)
    E['asyncio.InvalidStateError'] = PyClass(_asyncio.InvalidStateError)
    E['subprocess.TimeoutExpired'] = PyClass(_sp.TimeoutExpired)
    E['subprocess.CalledProcessError'] = PyClass(_sp.CalledProcessError)

    # sys
    def exc_info(I, a, k):
        if not I.exc_stack:
            return (None, None, None)
        e = I.exc_stack[-1]
        return (e.cls, e, Sym('traceback', meta={'truthy': True, 'notnone': True}))
    ef('sys.exc_info', exc_info)
    E['os.environ'] = ADict({}, label='os.environ')
    ef('os.getenv', lambda I, a, k: (lambda kk: E['os.environ'].d[kk] if kk is not _MISSING else (a[1] if len(a) > 1 else k.get('default')))(I.dict_find(E['os.environ'], a[0])))
    E['sys.argv'] = AList([Sym('argv0'), Sym('argv1')], label='sys.argv')
    E['sys.path'] = AList(['/usr/lib/python'], label='sys.path')
    for n in ('Path', 'PurePath', 'PosixPath', 'PurePosixPath'):
        E['pathlib.' + n] = PyClass(APath)

    def spec_from(I, a, k):
        o = Obj(E['importlib._Spec'], {'name': a[0], 'origin': I.force(a[1] if len(a) > 1 else k.get('location'))}, label='module spec')
        o.fields['loader'] = Obj(E['importlib._Loader'], {'spec': o}, label='loader')
        return o

    def load(I, a, k):
        I.event('import', spec=a[0].fields['spec'], module=a[1], sys_path=list(I.ext['sys.path'].items))
        if not hasattr(I.world, 'load_module'):
            raise Unsupported('import of a file')
        I.world.load_module(I, a[0].fields['spec'], a[1])
    E['importlib._Spec'] = ClassVal('ModuleSpec', [], {}, ext=True, path='importlib._Spec')
    E['importlib._Loader'] = ClassVal('Loader', [], {'exec_module': Builtin('exec_module', load)}, ext=True, path='importlib._Loader')
    E['importlib._Module'] = ClassVal('module', [], {}, ext=True, path='importlib._Module')
    ef('importlib.util.spec_from_file_location', spec_from)
    ef('importlib.util.module_from_spec', lambda I, a, k: Obj(E['importlib._Module'], {'__name__': a[0].fields['name'], '__file__': a[0].fields['origin'], '__spec__': a[0]},
                                                              label='module'))
    E['sys.executable'] = Sym('sys.executable', meta={'notnone': True})
    E['sys.platform'] = 'linux'
    E['sys.version_info'] = (3, 10, 0, 'final', 0)

    # contextlib
    sup = ClassVal('suppress', [], {}, ext=True, path='contextlib.suppress')
    E['contextlib.suppress'] = sup
    sup.ns['__init__'] = Builtin('suppress.__init__', lambda I, a, k: a[0].data.__setitem__('excs', tuple(a[1:])))
    sup.ns['__enter__'] = Builtin('suppress.__enter__', lambda I, a, k: None)
    sup.ns['__exit__'] = Builtin('suppress.__exit__', lambda I, a, k: a[2] is not None and I.exc_match(a[2], a[0].data['excs']))

    nc = ClassVal('nullcontext', [], {}, ext=True, path='contextlib.nullcontext')
    E['contextlib.nullcontext'] = nc
    nc.ns['__init__'] = Builtin('nullcontext.__init__', lambda I, a, k: a[0].data.__setitem__('v', a[1] if len(a) > 1 else k.get('enter_result')))
    nc.ns['__enter__'] = Builtin('nullcontext.__enter__', lambda I, a, k: a[0].data['v'])
    nc.ns['__exit__'] = Builtin('nullcontext.__exit__', lambda I, a, k: None)
    cl = ClassVal('closing', [], {}, ext=True, path='contextlib.closing')
    E['contextlib.closing'] = cl
    cl.ns['__init__'] = Builtin('closing.__init__', lambda I, a, k: a[0].data.__setitem__('v', a[1]))
    cl.ns['__enter__'] = Builtin('closing.__enter__', lambda I, a, k: a[0].data['v'])
    cl.ns['__exit__'] = Builtin('closing.__exit__', lambda I, a, k: I.call(I.getattr(a[0].data['v'], 'close'), [], {}) and None)
    es = ClassVal('ExitStack', [], {}, ext=True, path='contextlib.ExitStack')
    E['contextlib.ExitStack'] = es
    es.ns['__init__'] = Builtin('ExitStack.__init__', lambda I, a, k: a[0].data.__setitem__('cbs', []))
    es.ns['__enter__'] = Builtin('ExitStack.__enter__', lambda I, a, k: a[0])

    def es_enter(I, a, k):
        cm = I.force(a[1])
        if not isinstance(cm, Obj):
            raise Unsupported('ExitStack.enter_context(%r)' % (cm,))
        r = I.call(I.getattr(cm, '__enter__'), [], {})
        a[0].data['cbs'] = a[0].data['cbs'] + [('cm', cm)]
        return r

    def es_callback(I, a, k):
        a[0].data['cbs'] = a[0].data['cbs'] + [('cb', a[1], list(a[2:]), dict(k))]
        return a[1]

    def es_exit(I, a, k):
        exc, orig = a[2], a[2]
        cbs, a[0].data['cbs'] = a[0].data['cbs'], []
        for c in reversed(cbs):
            try:
                if c[0] == 'cb':
                    I.call(c[1], c[2], c[3])
                elif I.truth(I.call(I.getattr(c[1], '__exit__'), [I.type_of(exc) if exc is not None else None, exc, None], {})):
                    exc = None
            except AbsRaise as e:
                exc = e.exc
        if exc is not None and exc is not orig:
            raise AbsRaise(exc)
        return orig is not None and exc is None
    es.ns['enter_context'] = Builtin('ExitStack.enter_context', es_enter)
    es.ns['callback'] = Builtin('ExitStack.callback', es_callback)
    es.ns['push'] = Builtin('ExitStack.push', lambda I, a, k: a[0].data.__setitem__('cbs', a[0].data['cbs'] + [('cm', a[1])]))
    es.ns['close'] = Builtin('ExitStack.close', lambda I, a, k: es_exit(I, [a[0], None, None, None], {}) and None)
    es.ns['__exit__'] = Builtin('ExitStack.__exit__', es_exit)

    def ctxman(I, a, k):
        """@contextmanager: the with-body is evaluated at the generator's yield."""
        from .interp import GenCM
        fn = a[0]
        return Builtin('contextmanager(%s)' % getattr(fn, 'name', '?'), lambda I, aa, kk: GenCM(fn, aa, kk))
    ef('contextlib.contextmanager', ctxman)
    ef('contextlib.asynccontextmanager', ctxman)

    ef('typing.get_type_hints', lambda I, a, k: ADict({}))
    # logging: LoggerAdapter is modelled natively, the rest by the rules' environment
    la = ClassVal('LoggerAdapter', [], {}, ext=True, path='logging.LoggerAdapter')
    E['logging.LoggerAdapter'] = la

    def la_init(I, a, k):
        a[0].fields['logger'] = a[1] if len(a) > 1 else k['logger']
        a[0].fields['extra'] = a[2] if len(a) > 2 else k.get('extra')
    la.ns['__init__'] = Builtin('LoggerAdapter.__init__', la_init)
    la.ns['process'] = Builtin('LoggerAdapter.process', lambda I, a, k: (a[1], (dict_set(I, a[2], 'extra', a[0].fields['extra']), a[2])[1]))

    def la_method(level):
        def f(I, a, k):
            self, msg = a[0], a[1]
            kw = ADict(dict(k))
            if level == 'exception':
                kw.d.setdefault('exc_info', True)
            r = I.call(I.getattr(self, 'process'), [msg, kw], {})
            msg, kw = list(I.iterate(r))
            return I.call(I.getattr(self.fields['logger'], level), [msg] + a[2:], dict(mapping_items(I, kw)))
        return f
    for lv in ('debug', 'info', 'warning', 'error', 'critical', 'exception'):
        la.ns[lv] = Builtin('LoggerAdapter.' + lv, la_method(lv))

    def la_log(I, a, k):
        self, level, msg = a[0], a[1], a[2]
        r = I.call(I.getattr(self, 'process'), [msg, ADict(dict(k))], {})
        msg, kw = list(I.iterate(r))
        return I.call(I.getattr(self.fields['logger'], 'log'), [level, msg] + a[3:], dict(mapping_items(I, kw)))
    la.ns['log'] = Builtin('LoggerAdapter.log', la_log)
    la.ns['name'] = PropVal(Builtin('LoggerAdapter.name', lambda I, a, k: I.getattr(a[0].fields['logger'], 'name')))
    for m in ('isEnabledFor', 'getEffectiveLevel', 'setLevel', 'hasHandlers'):
        la.ns[m] = Builtin('LoggerAdapter.' + m, lambda I, a, k, m=m: I.call(I.getattr(a[0].fields['logger'], m), a[1:], k))
    for n, v in (('DEBUG', 10), ('INFO', 20), ('WARNING', 30), ('ERROR', 40), ('CRITICAL', 50)):
        E['logging.' + n] = v
    E['logging.handlers.QueueHandler'] = ClassVal('QueueHandler', [], {}, ext=True, path='logging.handlers.QueueHandler')
    E['logging.Handler'] = ClassVal('Handler', [], {}, ext=True, path='logging.Handler')
    E['logging.LogRecord'] = ClassVal('LogRecord', [], {}, ext=True, path='logging.LogRecord')
    E['asyncio.Future'] = ClassVal('Future', [], {}, ext=True, path='asyncio.Future')
    E['asyncio.Task'] = ClassVal('Task', [E['asyncio.Future']], {}, ext=True, path='asyncio.Task')
    E['threading.Thread'] = ClassVal('Thread', [], {}, ext=True, path='threading.Thread')
    E['threading.Event'] = ClassVal('Event', [], {}, ext=True, path='threading.Event')
    E['multiprocessing.Process'] = ClassVal('Process', [], {}, ext=True, path='multiprocessing.Process')
    E['types.FunctionType'] = PyClass(type(lambda: 0), 'function')
