# coding: utf-8
"""Small programs for `selftest.py idioms`: what the interpreter makes of Python idioms against what CPython does. Arguments: integers
n and m, a text s, a list l of texts of unknown length, a list t of three integers, a dict d with the optional keys 'a', 'b', 'c'."""


def gen_twice(n, m, s, l, t, d):
    g = (x for x in l)
    return list(g), list(g)


def gen_break(n, m, s, l, t, d):
    g = (x for x in t)
    for x in g:
        if x > n: break
    return list(g)


def gen_any_rest(n, m, s, l, t, d):
    g = (x for x in t)
    return any(x == n for x in g), list(g)


def gen_truth(n, m, s, l, t, d):
    g = (x for x in l)
    return 'yes' if g else 'no'


def gen_len(n, m, s, l, t, d):
    try: return len(x for x in l)
    except TypeError: return -1


def gen_index(n, m, s, l, t, d):
    try: return (x for x in l)[0]
    except TypeError: return 'error'


def gen_late(n, m, s, l, t, d):
    g = (x + n for x in t)
    n = m
    return list(g)


def gen_source_changed(n, m, s, l, t, d):
    g = (x for x in t)
    t.append(n)
    return list(g)


def gen_changed_between(n, m, s, l, t, d):
    out = []
    for x in (y for y in t if y not in out): out.append(x)
    return out


def gen_changed_name(n, m, s, l, t, d):
    out = []
    for x in (y for y in t if y > n):
        out.append(x)
        n = x
    return out


def gen_exception_late(n, m, s, l, t, d):
    g = (10 if x else d['zz'] for x in t)
    try: return any(x for x in g)
    except KeyError: return 'error'


def gen_exception_whole(n, m, s, l, t, d):
    try: return [x for x in (d['a'] if y > 0 else y for y in t)]
    except KeyError: return 'error'


def gen_never_read(n, m, s, l, t, d):
    out = []

    def f():
        out.append(n)
        yield n
    f()
    return out


def gen_effects_whole(n, m, s, l, t, d):
    out = []

    def f():
        for x in t:
            out.append(x)
            yield x
    return list(f()), out


def gen_effects_interleaved(n, m, s, l, t, d):
    out = []

    def f():
        for x in t:
            out.append(x)
            yield x
    for y in f(): out.append(-y)
    return out


def gen_yields_changed(n, m, s, l, t, d):
    def f():
        cur = []
        for x in t:
            cur.append(x)
            yield cur
    return [list(c) for c in f()]


def gen_yields_same(n, m, s, l, t, d):
    def f():
        cur = []
        for x in t:
            cur.append(x)
            yield cur
    return list(f())


def gen_recursive(n, m, s, l, t, d):
    def f(k):
        if k == 0:
            yield []
            return
        for tail in f(k - 1):
            yield [n] + tail
            yield [m] + tail
    return list(f(3))


def gen_return(n, m, s, l, t, d):
    def f():
        for x in t:
            if x < n: return
            yield x
    return list(f())


def gen_from(n, m, s, l, t, d):
    def f():
        yield n
        yield from t
        yield m
    return list(f())


def iter_next(n, m, s, l, t, d):
    it = iter(t)
    a = next(it)
    b = next(it)
    return a, b, list(it)


def iter_next_list(n, m, s, l, t, d):
    it = iter(l)
    try: a = next(it)
    except StopIteration: return 'none', list(it)
    return a, list(it)


def iter_next_changed(n, m, s, l, t, d):
    it = iter(t)
    a = next(it)
    t.append(n)
    return a, list(it)


def iter_is_itself(n, m, s, l, t, d):
    it = iter(t)
    return iter(it) is it, iter(t) is it, list(iter(it)), list(it)


def iter_merge(n, m, s, l, t, d):
    it = iter(t)
    if n > m: next(it)
    return list(it)


def next_default(n, m, s, l, t, d):
    return next((x for x in l if x == s), 'none')


def next_filter(n, m, s, l, t, d):
    return next((x for x in t if x > n), None)


def next_list(n, m, s, l, t, d):
    try: return next(t)
    except TypeError: return 'error'


def zip_twice(n, m, s, l, t, d):
    z = zip(t, [1, 2])
    return list(z), list(z)


def zip_same(n, m, s, l, t, d):
    it = iter(t)
    return list(zip(it, it))


def zip_lists(n, m, s, l, t, d):
    return [a + b for a, b in zip(l, l)]


def enum_twice(n, m, s, l, t, d):
    e = enumerate(l)
    return [i for i, x in e], [x for i, x in e]


def enum_start(n, m, s, l, t, d):
    return [(i, x) for i, x in enumerate(l, n)]


def enum_changed_after(n, m, s, l, t, d):
    e = enumerate(t)
    t[0] = n
    return list(e)


def enum_index(n, m, s, l, t, d):
    try: return enumerate(t)[0]
    except TypeError: return 'error'


def reversed_twice(n, m, s, l, t, d):
    r = reversed(l)
    return list(r), list(r)


def reversed_changed(n, m, s, l, t, d):
    r = reversed(t)
    t[1] = n
    return list(r)


def reversed_iterator(n, m, s, l, t, d):
    try: return list(reversed(iter(t)))
    except TypeError: return 'error'


def map_twice(n, m, s, l, t, d):
    r = map(lambda x: x + n, t)
    return list(r), list(r)


def map_late(n, m, s, l, t, d):
    r = map(lambda x: x + n, t)
    n = m
    return list(r)


def map_exception(n, m, s, l, t, d):
    r = map(lambda x: d['a'], t)
    try: return list(r)
    except KeyError: return 'error'


def filter_none(n, m, s, l, t, d):
    return list(filter(None, t))


def filter_list(n, m, s, l, t, d):
    return list(filter(lambda x: x != s, l))


def filter_truth(n, m, s, l, t, d):
    return bool(filter(None, []))


def sum_gen(n, m, s, l, t, d):
    return sum(x for x in t if x > n)


def max_gen(n, m, s, l, t, d):
    return max(x + n for x in t), min((x for x in t if x > n), default=m)


def max_key(n, m, s, l, t, d):
    return max(t, key=lambda x: x == n), min(t, key=lambda x: (x > n, x == m))


def sorted_gen(n, m, s, l, t, d):
    return sorted(x for x in [3, 1, 2])


def join_gen(n, m, s, l, t, d):
    return '-'.join(x for x in [s, 'a', s])


def join_twice(n, m, s, l, t, d):
    g = (x for x in [s, 'a'])
    return '-'.join(g) + '|' + '-'.join(g)


def unpack_gen(n, m, s, l, t, d):
    a, b, c = (x for x in t)
    return c, b, a


def star_gen(n, m, s, l, t, d):
    return max(*(x for x in t))


def in_gen(n, m, s, l, t, d):
    g = (x for x in t)
    return n in g


def in_gen_twice(n, m, s, l, t, d):
    g = (x for x in t)
    return n in g, m in g


def extend_gen(n, m, s, l, t, d):
    g = (x for x in l)
    out = [s]
    out.extend(g)
    out += g
    return out


def add_gen(n, m, s, l, t, d):
    try: return t + (x for x in t)
    except TypeError: return 'error'


def gen_equal(n, m, s, l, t, d):
    g = (x for x in t)
    return g == g, g == t, g is g


def gen_kind(n, m, s, l, t, d):
    return isinstance((x for x in t), list), isinstance(map(str, t), (list, tuple)), type((x for x in t)) is list


def gen_in_attribute(n, m, s, l, t, d):
    d['g'] = (x for x in t)
    a = list(d['g'])
    b = list(d['g'])
    return a, b


def comp_nested(n, m, s, l, t, d):
    return [x * 10 + y for x in [1, 2] for y in t if y > n]


def comp_inner_gen(n, m, s, l, t, d):
    g = (y for y in t)
    return [(x, y) for x in [1, 2] for y in g]


def comp_scope(n, m, s, l, t, d):
    x = n
    r = [x for x in t]
    return x, r


def comp_set(n, m, s, l, t, d):
    return n in {x for x in t}


def comp_dict(n, m, s, l, t, d):
    return {k: v for k, v in zip('ab', t)}


def dict_items_view(n, m, s, l, t, d):
    v = d.items()
    d['a'] = n
    return sorted(k for k, x in v), len(v)


def dict_keys_index(n, m, s, l, t, d):
    try: return d.keys()[0]
    except TypeError: return 'error'


def dict_keys_truth(n, m, s, l, t, d):
    return bool(d.keys()), bool(d), 'a' in d.keys()


def dict_change_values(n, m, s, l, t, d):
    for k in d: d[k] = n
    return d


def dict_change_values_items(n, m, s, l, t, d):
    for k, v in d.items(): d[k] = v + n
    return d


def dict_grow(n, m, s, l, t, d):
    try:
        for k in d: d[k + 'x'] = n
    except RuntimeError: return 'error'
    return d


def dict_pop_loop(n, m, s, l, t, d):
    for k in list(d):
        if d[k] > n: d.pop(k)
    return d


def dict_get_default(n, m, s, l, t, d):
    return d.get('a', n), d.setdefault('b', m), d


def dict_update_order(n, m, s, l, t, d):
    e = {'a': n, 'z': m}
    e.update(d)
    return e


def dict_truth_default(n, m, s, l, t, d):
    return d.get('a') or n, d.get('b') and m


def set_order(n, m, s, l, t, d):
    return len(set(t)), sorted(set([3, 1, 2]))


def list_shared(n, m, s, l, t, d):
    u = t
    u.append(n)
    v = t[:]
    v.append(m)
    return t, u, v


def list_nested_shared(n, m, s, l, t, d):
    u = [t] * 2
    u[0].append(n)
    return u


def list_default(n, m, s, l, t, d):
    def f(x, acc=[]):
        acc.append(x)
        return list(acc)
    return f(n), f(m)


def list_slices(n, m, s, l, t, d):
    return t[1:], t[:-1], t[-1], t[:n] if 0 <= n <= 3 else None


def list_negative(n, m, s, l, t, d):
    try: return t[n]
    except IndexError: return 'error'


def list_append_loop(n, m, s, l, t, d):
    out = []
    for x in l:
        if x != s: out.append(x + '!')
        else: out.append(s)
    return out


def list_count_loop(n, m, s, l, t, d):
    k = 0
    for x in l:
        if x == s: k += 1
    return k > 0


def list_first_loop(n, m, s, l, t, d):
    for i, x in enumerate(l):
        if x == s: return i
    return -1


def list_while(n, m, s, l, t, d):
    k = 0
    while k < len(t) and k < 2: k += 1
    return t[k]


def list_else(n, m, s, l, t, d):
    for x in t:
        if x == n: break
    else:
        return 'none'
    return 'some'


def list_changed_in_loop(n, m, s, l, t, d):
    for x in t:
        if len(t) < 5: t.append(x)
    return t


def list_remove_in_loop(n, m, s, l, t, d):
    for x in t:
        if x == n: t.remove(x)
    return t


def list_multiply(n, m, s, l, t, d):
    return [s] * 2 + [None] * 1


def list_index_assign(n, m, s, l, t, d):
    t[1], t[0] = t[0], t[1]
    return t


def list_del(n, m, s, l, t, d):
    t.pop()
    t.insert(0, n)
    return t


def list_in_mixed(n, m, s, l, t, d):
    return s in l, n in t, None in t, n in (1, 2, None)


def try_finally(n, m, s, l, t, d):
    out = []
    try:
        out.append(d['a'])
    except KeyError:
        out.append(n)
    else:
        out.append(m)
    finally:
        out.append(0)
    return out


def try_nested(n, m, s, l, t, d):
    try:
        try: return d['a']
        except IndexError: return 1
    except KeyError: return 2


def chained(n, m, s, l, t, d):
    return 0 <= n < m, n == m == 3, not n == m, n != m or n > 0


def integers(n, m, s, l, t, d):
    return n // 10, n % 10, -n // 7, -n % 7, abs(n), n % 100 // 10, divmod(n, 10) if False else 0


def booleans(n, m, s, l, t, d):
    return True + (n > 0), (n > 0) == 1, bool(n), not n, (n > 0) is True


def conditional(n, m, s, l, t, d):
    return (n if n > m else m) if n > 0 else (s or 'empty')


def strings(n, m, s, l, t, d):
    return s[:1], s[-1:], s[1:], len(s), s + 'a', s == 'кот', s != '', s * 2 if False else s


def string_tests(n, m, s, l, t, d):
    return s.startswith('к'), s.endswith('т'), 'о' in s, s[:2] == 'ко', s in ('кот', 'а')


def string_index(n, m, s, l, t, d):
    try: return s[0]
    except IndexError: return 'error'


def string_chars(n, m, s, l, t, d):
    return [c for c in s], any(c == 'о' for c in s)


def string_replace(n, m, s, l, t, d):
    return s.replace('о', 'ё'), s.upper(), s.capitalize() if False else ''


def closure_late(n, m, s, l, t, d):
    fs = [lambda: x for x in t]
    return [f() for f in fs]


def closure_default(n, m, s, l, t, d):
    fs = [lambda x=x: x for x in t]
    return [f() for f in fs]


def args_kwargs(n, m, s, l, t, d):
    def f(a, *b, c=1, **e): return a, b, c, sorted(e)
    return f(n), f(n, m, c=3, z=1), f(*t), f(1, **{'c': n})


def walrus(n, m, s, l, t, d):
    if (k := n + 1) > m: return k
    return k - 1


def lambda_sort(n, m, s, l, t, d):
    return sorted([3, -1, 2], key=lambda x: -x), sorted(['б', 'а'], reverse=True)


def tuple_compare(n, m, s, l, t, d):
    return (n, 1) < (m, 2), (n, m) == (m, n), (1, 2) < (1, 2, 3)


def aug_list(n, m, s, l, t, d):
    u = t
    u += [n]
    return t


def aug_tuple(n, m, s, l, t, d):
    u = v = (n,)
    u += (m,)
    return u, v


def none_checks(n, m, s, l, t, d):
    x = d.get('a')
    if x is None: return 'none'
    if not x: return 'zero'
    return x


def enumerate_dict(n, m, s, l, t, d):
    return [(i, k) for i, k in enumerate(['x', 'y'])]


def zip_uneven(n, m, s, l, t, d):
    return list(zip(t, 'ab')), dict(zip('abc', t))


def all_empty(n, m, s, l, t, d):
    return all(x for x in []), any(x for x in []), all(t), any(t), all(x > n for x in t)


def any_list_effect(n, m, s, l, t, d):
    out = []
    r = any(out.append(x) or x == n for x in t)
    return r, out


class Base_(object):
    shared = []
    kind = 'base'
    __hash__ = None

    def __init__(self, x, y=None):
        self.x = x
        self.y = y if y is not None else []

    def __eq__(self, o): return isinstance(o, Base_) and self.x == o.x

    def __ne__(self, o): return not self == o

    @property
    def double(self): return self.x * 2

    @classmethod
    def make(cls, x): return cls(x)

    @staticmethod
    def plus(a, b): return a + b

    def name(self): return self.kind

    def __contains__(self, k): return k == self.x

    def __len__(self): return 3


class Derived_(Base_):
    kind = 'derived'

    def __init__(self, x):
        super(Derived_, self).__init__(x + 1)
        self.z = x

    def name(self): return 'd-' + Base_.name(self)


class Slots_(object):
    __slots__ = ('a', 'b')

    def __init__(self, a): self.a = a


class Err_(Exception):
    def __init__(self, k): self.k = k


class Sub_(Err_): pass


def class_objects(n, m, s, l, t, d):
    a, b = Base_(n), Base_(m)
    a.y.append(1)
    return a.double, b.y, a.y, a == b, a != b, a is a


def class_derived(n, m, s, l, t, d):
    a = Derived_(n)
    return a.x, a.z, a.name(), a.kind, Base_(1).name(), isinstance(a, Base_), Derived_.make(m).x, Base_.plus(n, m)


def class_attribute(n, m, s, l, t, d):
    a = Base_(n)
    a.kind = s
    return a.name(), Base_(m).name(), Base_.kind


def class_shared(n, m, s, l, t, d):
    a, b = Base_(n), Base_(m)
    c = b
    c.x = 7
    return a.x, b.x, hasattr(a, 'x'), hasattr(a, 'q'), getattr(a, 'q', n)


def class_contains(n, m, s, l, t, d):
    a = Base_(n)
    return m in a, len(a)


def class_in_list(n, m, s, l, t, d):
    a, b = Base_(n), Base_(m)
    return a in [b], [a] == [b], [a] == [a], (a,) == (b,)


def class_truth(n, m, s, l, t, d):
    return 'yes' if Base_(n) else 'no'


def class_hash(n, m, s, l, t, d):
    try: return len({Base_(n)})
    except TypeError: return 'error'


def class_slots(n, m, s, l, t, d):
    a = Slots_(n)
    try: return a.b
    except AttributeError: pass
    try: a.c = 1
    except AttributeError: return 'no c'


def class_property_set(n, m, s, l, t, d):
    a = Base_(n)
    try: a.double = 4
    except AttributeError: return 'read only'


def class_dict_attr(n, m, s, l, t, d):
    a = Base_(n, d)
    a.y['a'] = m
    return d, a.y is d


def class_delete(n, m, s, l, t, d):
    a = Base_(n)
    del a.x
    try: return a.x
    except AttributeError: return 'gone'


def class_method_value(n, m, s, l, t, d):
    a = Base_(n)
    f = a.name
    a.kind = s
    return f(), [g(n) for g in (Base_.make, Derived_.make)][1].x


def exceptions(n, m, s, l, t, d):
    try:
        if n > 0: raise Sub_(m)
        if n < -5: raise KeyError('x')
        return 'ok'
    except Err_ as e: return e.k, type(e) is Sub_
    except LookupError: return 'lookup'


def exception_order(n, m, s, l, t, d):
    try: raise Sub_(n)
    except (KeyError, Sub_): return 1
    except Err_: return 2


def exception_reraise(n, m, s, l, t, d):
    try:
        try: return d['a'] + t[5]
        except KeyError: raise
        except IndexError: raise ValueError('x')
    except ValueError: return 'value'
    except KeyError: return 'key'


def exception_finally_return(n, m, s, l, t, d):
    def f():
        try: return n
        finally: t.append(9)
    return f(), t


def exception_in_loop(n, m, s, l, t, d):
    out = []
    for k in 'abc':
        try: out.append(d[k])
        except KeyError: continue
    return out


def assertion(n, m, s, l, t, d):
    try: assert n > 0, 'x'
    except AssertionError: return 'no'
    return 'yes'


def keys_mixed(n, m, s, l, t, d):
    e = {1: 'one', True: 'true', 'a': n, None: m, (1, 2): s}
    return e[1], len(e), e[None], e[(1, 2)], 1.0 in e


def keys_symbolic(n, m, s, l, t, d):
    e = {}
    e[n] = 1
    e[m] = 2
    return e[n], e[m], n in e, 5 in e


def keys_text(n, m, s, l, t, d):
    e = {'a': 1, 'b': 2}
    e[s] = 3
    return e['a'], e.get('b'), e.get(s + 'x', 0), s in e


def keys_deleted(n, m, s, l, t, d):
    if 'a' in d: del d['a']
    try: del d['a']
    except KeyError: d['z'] = 1
    return d


def dict_pop(n, m, s, l, t, d):
    return d.pop('a', n), d.pop('b', None), d


def dict_copy(n, m, s, l, t, d):
    e, f, g = d.copy(), dict(d), {k: v for k, v in d.items()}
    d['a'] = n
    return e, f, g, d


def dict_equal(n, m, s, l, t, d):
    return d == {'a': n}, d == {}, d != {'a': n, 'b': m}


def dict_nested(n, m, s, l, t, d):
    e = {'x': {}, 'y': {}}
    e['x']['k'] = n
    f = dict(e)
    f['y']['k'] = m
    return e, f


def dict_get_none(n, m, s, l, t, d):
    return d.get('a') is None, d.get('a', 0) == 0, 'a' in d and d['a'] == 0


def dict_fromkeys(n, m, s, l, t, d):
    return dict.fromkeys(['a', 'b'], n), {**d, 'a': m}, dict(a=n, **{'b': m})


def dict_comp_filter(n, m, s, l, t, d):
    return {k: v for k, v in d.items() if v > n}, [k for k in d if d[k] == m], [v for v in d.values()]


def dict_sorted(n, m, s, l, t, d):
    return [k for k in sorted(d)], list(d), max(d.values()) if d else None


def dict_loop_sum(n, m, s, l, t, d):
    r = 0
    for k, v in d.items(): r += v
    return r


def list_methods(n, m, s, l, t, d):
    u = [3, 1, 2]
    u.sort()
    v = [1, 2]
    v.insert(1, n)
    v.extend((m, 5))
    w = v.pop(0)
    return u, v, w, u.index(2), [1, 1, 2].count(1)


def list_sort_key(n, m, s, l, t, d):
    u = ['бб', 'а', 'в']
    u.sort(key=len)
    return u, sorted(u, key=len, reverse=True), sorted((1, 2), reverse=True)


def list_reverse(n, m, s, l, t, d):
    u = list(t)
    u.reverse()
    return u, t, list(reversed(t)), t[::-1] if False else 0


def list_clear(n, m, s, l, t, d):
    u = t
    u.clear()
    return t


def list_rebind(n, m, s, l, t, d):
    u = t
    u = u + [n]
    return t, u


def list_equal(n, m, s, l, t, d):
    return t == [n, n, n], t == (n, n, n), [] == (), l == [], l == [s]


def list_star(n, m, s, l, t, d):
    return [*t, n], (*t, *[m])


def list_unpack(n, m, s, l, t, d):
    (a, b), c = (n, m), t
    x = y = [n]
    y.append(m)
    return a, b, x


def list_of_lists(n, m, s, l, t, d):
    r = [[] for _ in range(3)]
    r[0].append(n)
    q = [[]] * 2
    q[1].append(m)
    return r, q


def list_concat_slices(n, m, s, l, t, d):
    return l[:1] + l[1:] == l, l[:-1], l[-1:], l[1:2]


def list_long_index(n, m, s, l, t, d):
    try: return l[0], l[-1]
    except IndexError: return 'empty'


def list_long_assign(n, m, s, l, t, d):
    if len(l) > 1:
        l[0] = s
        l[-1] = 'z'
    return l


def list_long_build(n, m, s, l, t, d):
    out = []
    for i, x in enumerate(l):
        if i == 0: continue
        out.append((i, x))
    return out, len(out) == len(l)


def list_long_last(n, m, s, l, t, d):
    r = s
    for x in l: r = x
    return r


def list_long_flag(n, m, s, l, t, d):
    f = False
    for x in l:
        if x == s:
            f = True
            break
    return f


def list_long_sum(n, m, s, l, t, d):
    return len([x for x in l if x == s]) <= len(l), len(l + [s]) - len(l)


def list_long_map(n, m, s, l, t, d):
    return list(map(len, l)), [x + s for x in l if x], list(zip(l, l[1:])) if False else 0


def list_long_join(n, m, s, l, t, d):
    return ', '.join(l) == ', '.join(list(l))


def list_long_all(n, m, s, l, t, d):
    return all(x == s for x in l), any(len(x) > 2 for x in l), not l, bool(l)


def list_long_while(n, m, s, l, t, d):
    k = 0
    for x in l:
        k += 1
    return k == len(l), k


def list_long_in(n, m, s, l, t, d):
    return s in l, s not in l, l.index(s) if False else 0


def list_long_copy(n, m, s, l, t, d):
    u = list(l)
    u.append(s)
    return l, u


def list_long_range(n, m, s, l, t, d):
    return [l[i] for i in range(len(l))], [i for i in range(len(l)) if l[i] == s]


def list_long_two(n, m, s, l, t, d):
    a, b = [], []
    for x in l:
        if x == s: a.append(x)
        else: b.append(x)
    return len(a) + len(b) == len(l), a, b


def list_long_state(n, m, s, l, t, d):
    last, seen = None, False
    for x in l:
        if last == x: seen = True
        last = x
    return last


def list_long_best(n, m, s, l, t, d):
    best = None
    for x in l:
        if best is None or len(x) > len(best): best = x
    return best


def list_long_best_last(n, m, s, l, t, d):
    best = None
    for x in l:
        if best is None or len(x) >= len(best): best = x
    return best


def list_long_maxkey(n, m, s, l, t, d):
    return max(l, key=len) if l else None, min(l, key=lambda x: (len(x), x == s), default='none')


def list_long_dict(n, m, s, l, t, d):
    e = {}
    for x in l: e[x] = len(x)
    return s in e, e.get(s)


def list_long_early(n, m, s, l, t, d):
    for x in l:
        if not x: raise ValueError('x')
        if x == s: return x
    return 'none'


def list_long_obj(n, m, s, l, t, d):
    a = Base_(n)
    for x in l: a.x = x
    return a.x


def list_long_nested(n, m, s, l, t, d):
    return any(x == y for x in l for y in ('а', 'б'))


def numbers_more(n, m, s, l, t, d):
    return n * m - n, (n + 3) // 4 * 2, n % 10 in (2, 3, 4), 5 <= n % 20 <= 9, -n, +n, n == float(n) if False else 0


def numbers_range(n, m, s, l, t, d):
    return n in range(2, 5), [k for k in range(3)], list(range(3, 0, -1)), sum(range(4))


def numbers_minmax(n, m, s, l, t, d):
    return max(n, m), min(n, m, 3), max(t), sum(t), abs(n - m)


def numbers_bits(n, m, s, l, t, d):
    return 6 & 3, 6 | 1, 1 << 3, 2 ** 5, 7 / 2, round(2.5), divmod(7, 2)


def numbers_str(n, m, s, l, t, d):
    return str(n) == str(m), str(12), int('12'), '%d' % 5, '%s-%s' % (1, 'x')


def numbers_bool(n, m, s, l, t, d):
    return n and m, n or m, not (n and m), (n > 0) + (m > 0), sum(x > 0 for x in t)


def numbers_zero_division(n, m, s, l, t, d):
    try: return n // m
    except ZeroDivisionError: return 'zero'


def numbers_compare_none(n, m, s, l, t, d):
    try: return n < None
    except TypeError: return 'error'


def texts_add(n, m, s, l, t, d):
    try: return s + n
    except TypeError: return 'error'


def texts_more(n, m, s, l, t, d):
    return s in 'котка', 'кот' in s, s[0:2], s[-2:], s[1:-1], s == s[:1] + s[1:], s[:0], s[5:]


def texts_methods(n, m, s, l, t, d):
    return s.upper() == s.upper(), 'Кот'.lower(), ' a '.strip(), 'a-b'.split('-'), 'abc'.find('c'), 'к'.isupper(), s.strip() == s


def texts_compare(n, m, s, l, t, d):
    return s < 'к' if False else s == 'к', s is s, s != 'к' and s > '' if False else 1


def texts_format(n, m, s, l, t, d):
    return '%s!' % s, '%s' % (s,), '{}'.format('x'), f'{s}' if False else 0


def texts_iterate(n, m, s, l, t, d):
    return [c for c in s if c in 'ао'], all(c != 'я' for c in s), len([c for c in s]) == len(s)


def texts_truth(n, m, s, l, t, d):
    return 'y' if s else 'n', s or 'пусто', s and s[0]


def texts_loop(n, m, s, l, t, d):
    k = 0
    for c in s:
        if c == 'о': k += 1
    return k > 0


def texts_join(n, m, s, l, t, d):
    return ''.join([s, s]), ' '.join(['a', s]), ''.join(c for c in 'abc' if c != 'b')


def none_and_is(n, m, s, l, t, d):
    x = None if n > 0 else m
    return x is None, x == None, x is not None and x > 0, (x or 0) + 1


def union_values(n, m, s, l, t, d):
    x = n if n > 3 else s if m > 0 else None
    return isinstance(x, int), isinstance(x, str), x is None, x == 4, x == 'а'


def union_lists(n, m, s, l, t, d):
    u = t if n > 0 else [m]
    u.append(5)
    return u, t


def union_objects(n, m, s, l, t, d):
    a, b = Base_(n), Base_(m)
    c = a if n > m else b
    c.x = 100
    return a.x, b.x, c.x


def union_dicts(n, m, s, l, t, d):
    e = {'a': 1}
    f = d if n > 0 else e
    f['q'] = m
    return d, e


def functions_nested(n, m, s, l, t, d):
    cache = {}

    def f(x):
        if x not in cache: cache[x] = len(cache)
        return cache[x]
    return f('a'), f('b'), f('a'), cache


def functions_partial(n, m, s, l, t, d):
    def add(k): return lambda x: x + k
    a, b = add(n), add(m)
    return a(1), b(1)


def functions_recursive(n, m, s, l, t, d):
    def f(k): return 1 if k <= 0 else k * f(k - 1)
    return f(4), f(0)


def functions_default_shared(n, m, s, l, t, d):
    def f(x, acc={}):
        acc[x] = len(acc)
        return dict(acc)
    return f('a'), f('b')


def functions_keyword(n, m, s, l, t, d):
    def f(a, b=2, *, c=3): return a, b, c
    try: f(1, 2, 3)
    except TypeError: return f(n, c=m), f(b=n, a=m)


def functions_as_values(n, m, s, l, t, d):
    table = {'a': lambda x: x + 1, 'b': abs}
    return table['a'](n), table['b'](m), [f(3) for f in table.values()]


def scope_loop_variable(n, m, s, l, t, d):
    for x in t: pass
    return x


def scope_comprehension(n, m, s, l, t, d):
    y = [n + z for z in [q * 2 for q in t]]
    return y


def scope_unbound(n, m, s, l, t, d):
    try:
        if n > 0: x = 1
        return x
    except UnboundLocalError: return 'unbound'


def scope_loop_unbound(n, m, s, l, t, d):
    for x in l: pass
    try: return x
    except UnboundLocalError: return 'unbound'


def scope_delete(n, m, s, l, t, d):
    x = n
    del x
    try: return x
    except UnboundLocalError: return 'gone'


def scope_exception_name(n, m, s, l, t, d):
    e = n
    try: d['zz']
    except KeyError as e: pass
    try: return e
    except UnboundLocalError: return 'gone'


def sets_native(n, m, s, l, t, d):
    a, b = {1, 2, 3}, {2, 3, 4}
    return sorted(a & b), sorted(a | b), sorted(a - b), a <= b, 2 in a, len(a | b), n in a


def sets_built(n, m, s, l, t, d):
    a = set()
    for x in t: a.add(x)
    return n in a, bool(a)


def sets_equal(n, m, s, l, t, d):
    return set(t) == {n}, set([1, 2]) == {2, 1}, frozenset('ab') == {'a', 'b'}


def tuples(n, m, s, l, t, d):
    a = (n, m)
    return a[0], a[-1], a + (1,), a == (n, m), a[1:], len(a), (n,) in [(m,)], a * 2


def tuple_assign(n, m, s, l, t, d):
    try: (n, m)[0] = 1
    except TypeError: return 'error'


def while_break(n, m, s, l, t, d):
    k, out = 0, []
    while True:
        if k > 2: break
        k += 1
        if k == 2: continue
        out.append(k + n)
    return out


def while_pop(n, m, s, l, t, d):
    out = []
    while t: out.append(t.pop())
    return out


def conditional_chain(n, m, s, l, t, d):
    if n > 5: r = 'big'
    elif n > 0: r = 'small'
    elif n == 0: r = 'zero'
    else: r = 'negative'
    return r


def comparison_effects(n, m, s, l, t, d):
    out = []

    def f(x):
        out.append(x)
        return x
    r = f(n) < f(m) < f(3)
    q = f(n) > 0 and f(m) > 0 or f(7)
    return r, q, out


def evaluation_order(n, m, s, l, t, d):
    out = []

    def f(x):
        out.append(x)
        return x
    x = {f(1): f(2), f(3): f(4)}
    y = [f(5), f(6)][f(0)]
    d[f('a')] = f(8)
    return out


def augmented_effects(n, m, s, l, t, d):
    out = []

    def f():
        out.append(1)
        return t
    f()[0] += n
    return t, out


def ternary_lists(n, m, s, l, t, d):
    return [x if x > n else -x for x in t], [x for x in t if x > n or x == m], [(x, y) for x, y in zip(t, t[1:])]


def multiple_returns(n, m, s, l, t, d):
    for x in t:
        if x == n: return 'n'
        if x == m: return 'm'
    else: return 'none'


def nested_break(n, m, s, l, t, d):
    out = []
    for x in t:
        for y in (1, 2, 3):
            if y > x: break
            out.append((x, y))
        else: out.append('all')
    return out


def loop_else_continue(n, m, s, l, t, d):
    out = []
    for x in t:
        if x < n: continue
        if x > m: break
        out.append(x)
    else: out.append('end')
    return out


def bool_keys(n, m, s, l, t, d):
    b = n > 0
    return b in (1, 2), b == 0, b != 1, {True: 'x'}.get(1), b in [None, 'a'], (b, 1) == (1, b), [b] == [True]


def bool_arith(n, m, s, l, t, d):
    b, c = n > 0, m > 0
    return b == c, b is c if False else 0, b < c, b + c, b * 3, -b, b and c, int(b), str(True), abs(b)


def bool_index(n, m, s, l, t, d):
    return t[n > 0], ('a', 'b')[m > n], 'xy'[n > 0]


def filter_then_first(n, m, s, l, t, d):
    r = [x for x in l if x != s]
    return r[0] if r else 'none'


def filter_then_last(n, m, s, l, t, d):
    r = [x for x in t if x > n]
    return r[-1] if r else 'none', len(r)


def filter_count(n, m, s, l, t, d):
    return sum(1 for x in t if x > n), len([1 for x in t if x == m]), sum([x == n for x in t])


def loop_running(n, m, s, l, t, d):
    r, best = None, n
    for x in t:
        if x >= best: r, best = x, x
    return r, best


def loop_long_running(n, m, s, l, t, d):
    best, size = None, -1
    for x in l:
        if len(x) > size: best, size = x, len(x)
    return best, size


def loop_long_two_flags(n, m, s, l, t, d):
    a = b = False
    for x in l:
        if x == s: a = True
        if x == 'кот': b = a
    return a, b


def loop_long_break_value(n, m, s, l, t, d):
    r = 'none'
    for x in l:
        if x == s:
            r = x + '!'
            break
        r = x
    return r


def loop_long_else(n, m, s, l, t, d):
    for x in l:
        if x == s: break
    else: return 'none'
    return x


def loop_long_index(n, m, s, l, t, d):
    k = 0
    for x in l:
        if x == s: break
        k += 1
    return k


def loop_long_accumulate(n, m, s, l, t, d):
    r = ''
    for x in l: r += x[:1]
    return r


def loop_long_pairs(n, m, s, l, t, d):
    return [a == b for a, b in zip(l, l[1:])]


def loop_long_filter_index(n, m, s, l, t, d):
    return [i for i, x in enumerate(l) if x == s]


def loop_long_write(n, m, s, l, t, d):
    u = list(l)
    for i in range(len(u)):
        if u[i] == s: u[i] = 'z'
    return u, l


def loop_long_write_enumerate(n, m, s, l, t, d):
    u = list(l)
    for i, x in enumerate(u):
        if x == '': u[i] = s
    return u


def loop_long_write_other(n, m, s, l, t, d):
    u = [''] * len(l)
    for i, x in enumerate(l): u[i] = x + 'x'
    return u


def loop_long_dict_count(n, m, s, l, t, d):
    e = {'a': n}
    for x in l:
        if x in e: e[x] = m
    return e


def loop_long_object(n, m, s, l, t, d):
    a = Base_(n)
    for x in l:
        a.y.append(x)
        if x == s: a.x = m
    return a.x, a.y


def loop_long_exception(n, m, s, l, t, d):
    try:
        for x in l:
            if x == s: raise KeyError(x)
    except KeyError: return 'found'
    return 'none'


def loop_long_twice(n, m, s, l, t, d):
    r = []
    for x in l:
        if x == s: r.append(x)
    for x in l:
        if x != s: r.append(x)
    return r


def loop_long_reversed(n, m, s, l, t, d):
    for x in reversed(l):
        if x == s: return 'some'
    return list(reversed(l))


def loop_long_last_match(n, m, s, l, t, d):
    r = None
    for i, x in enumerate(l):
        if x == s: r = i
    return r


def loop_long_first_match(n, m, s, l, t, d):
    r = None
    for i, x in enumerate(l):
        if x == s and r is None: r = i
    return r


def loop_long_min(n, m, s, l, t, d):
    best = None
    for i, x in enumerate(l):
        k = len(x)
        if best is None or k < best[0]: best = (k, i)
    return best


def loop_long_alternate(n, m, s, l, t, d):
    f = False
    for x in l: f = not f
    return f


def loop_long_swap(n, m, s, l, t, d):
    a, b = s, 'z'
    for x in l: a, b = b, a
    return a, b


def loop_long_prev(n, m, s, l, t, d):
    prev, r = s, []
    for x in l:
        r.append(prev == x)
        prev = x
    return r


def sort_by(n, m, s, l, t, d):
    return sorted(t), sorted(t, reverse=True)


def max_long_tuple(n, m, s, l, t, d):
    return max((len(x), i) for i, x in enumerate(l)) if l else None


def max_long_first(n, m, s, l, t, d):
    return max(enumerate(l), key=lambda p: len(p[1]))[0] if l else None


def min_default(n, m, s, l, t, d):
    return min([], default=n), max((x for x in t if x > 100), default=m)


def any_long_zip(n, m, s, l, t, d):
    return any(a != b for a, b in zip(l, l)), all(i < len(l) for i, x in enumerate(l))


def next_long(n, m, s, l, t, d):
    return next((i for i, x in enumerate(l) if x == s), -1), next(iter(l), 'empty')


def slice_long(n, m, s, l, t, d):
    return l[:2], l[2:], l[-2:], l[:-1], l[1:][:1], len(l[1:])


def insert_long(n, m, s, l, t, d):
    u = list(l)
    u.insert(0, s)
    u = u + ['z']
    u.extend(l)
    return u


def multiply_long(n, m, s, l, t, d):
    return ['x'] * len(l), [None] * n


def long_equal(n, m, s, l, t, d):
    return l == list(l), l != l[:], [x for x in l] == l, [x + '' for x in l] == l


def long_nested_lists(n, m, s, l, t, d):
    r = [[x, s] for x in l]
    return r, [p[0] for p in r], [q for q in zip(l, r)]


def long_nested_write(n, m, s, l, t, d):
    r = [[x] for x in l]
    for q in r: q.append(s)
    return r


def dict_of_lists(n, m, s, l, t, d):
    e = {}
    e.setdefault('a', []).append(n)
    e.setdefault('a', []).append(m)
    return e


def dict_symbolic_write(n, m, s, l, t, d):
    e = {'a': 1, 'b': 2}
    e[s] = n
    e['a'] = m
    return e['a'], e['b'], e[s]


def dict_symbolic_pop(n, m, s, l, t, d):
    e = {'a': 1, 'b': 2}
    r = e.pop(s, None)
    return r, 'a' in e, e.get('b')


def dict_symbolic_default(n, m, s, l, t, d):
    return d.get(s, n), s in d


def alias_loop_two_names(n, m, s, l, t, d):
    a = b = []
    for x in l:
        a.append(x)
        if x == s: a = []
    return a, b


def alias_loop_groups(n, m, s, l, t, d):
    groups, cur = [], []
    for x in l:
        cur.append(x)
        if x == s:
            groups.append(cur)
            cur = []
    groups.append(cur)
    return groups


def alias_loop_same_list(n, m, s, l, t, d):
    acc, cur = [], []
    for x in l:
        acc.append(cur)
        cur.append(x)
    return acc


def alias_loop_after(n, m, s, l, t, d):
    acc, g = [], []
    for x in l:
        g = [x]
        acc.append(g)
    g.append('z')
    return acc, g


def alias_loop_first_kept(n, m, s, l, t, d):
    first = []
    cur = first
    for x in l:
        cur.append(x)
        cur = [x]
    return first, cur


def alias_loop_object_field(n, m, s, l, t, d):
    y = []
    a = Base_(n, y)
    for x in l:
        a.y.append(x)
        a.x = a.x + 1
    return a.x, a.y, y


def alias_loop_object_field_new(n, m, s, l, t, d):
    y = []
    a = Base_(n, y)
    for x in l:
        a.y.append(x)
        if x == s: a.y = []
    return a.y, y


def alias_loop_field_two(n, m, s, l, t, d):
    y = []
    a, b = Base_(n, y), Base_(m, y)
    for x in l:
        a.y.append(x)
        a.x = m
    b.y.append('z')
    return a.y, b.y, a.x


def alias_loop_dict_value(n, m, s, l, t, d):
    e = {'a': []}
    cur = e['a']
    for x in l:
        cur.append(x)
        e['b'] = cur
    return e, cur


def alias_loop_dict_value_new(n, m, s, l, t, d):
    e = {}
    cur = []
    for x in l:
        e[x] = cur
        cur = [x]
    cur.append('z')
    return e.get(s), cur


def alias_loop_object_reassigned(n, m, s, l, t, d):
    a = Base_(0)
    b = a
    for x in l:
        a.x += 1
        if x == s: a = Base_(n)
    return a.x, b.x


def alias_loop_object_kept(n, m, s, l, t, d):
    a = b = Base_(0)
    for x in l:
        a.x += 1
        b.y.append(x)
    return a.x, b.x, a.y


def alias_loop_object_list(n, m, s, l, t, d):
    r = []
    a = Base_(0)
    for x in l:
        a = Base_(x)
        r.append(a)
    a.x = 'changed'
    return [q.x for q in r]


def alias_loop_object_shared(n, m, s, l, t, d):
    r = []
    a = Base_(0)
    for x in l:
        r.append(a)
        a.x += 1
    return [q.x for q in r]


def alias_loop_nested_list(n, m, s, l, t, d):
    a = []
    b = [a, a]
    for x in l: b[0].append(x)
    return b


def alias_loop_nested_reassigned(n, m, s, l, t, d):
    b = [[], []]
    for x in l:
        b[0].append(x)
        if x == s: b[1] = b[0]
    return b


def alias_loop_swap_lists(n, m, s, l, t, d):
    a, b = [], []
    for x in l:
        a.append(x)
        a, b = b, a
    return a, b


def alias_loop_swap_lists_first(n, m, s, l, t, d):
    a, b = [], []
    c = a
    for x in l:
        a, b = b, a
        a.append(x)
    return a, b, c


def alias_loop_break(n, m, s, l, t, d):
    r, g = [], []
    for x in l:
        g = [x]
        r.append(g)
        if x == s: break
    g.append('z')
    return r, g


def alias_loop_return(n, m, s, l, t, d):
    r = []
    def find():
        for x in l:
            q = [x]
            r.append(q)
            if x == s: return q
        return []
    find().append('z')
    return r


def alias_loop_self(n, m, s, l, t, d):
    r = [l]
    for x in l:
        if x == s: r.append(l)
    l.append('z')
    return r


def alias_loop_set(n, m, s, l, t, d):
    a = set()
    b = a
    for x in t:
        a.add(x)
        if x == n: a = set()
    return sorted(b) == sorted(set(t)), n in b


def alias_loop_default(n, m, s, l, t, d):
    e = {}
    for x in l:
        e.setdefault(x, []).append(x)
    q = e.get(s)
    if q: q.append('z')
    return e.get(s), 'z' in e.get(s, [])


def alias_comprehension(n, m, s, l, t, d):
    a = []
    r = [a for x in l]
    a.append(s)
    return r


def alias_comprehension_first(n, m, s, l, t, d):
    r = [[x] for x in l]
    q = r[0] if r else []
    q.append('z')
    return r


def alias_star(n, m, s, l, t, d):
    r = [[]] * 3
    r[0].append(n)
    return r


def alias_copy(n, m, s, l, t, d):
    r = list(l)
    q = r
    q.append(s)
    w = r[:]
    w.append('w')
    return r, w, l


def alias_default_object(n, m, s, l, t, d):
    a = Base_(n)
    b = Base_(m, a.y)
    for x in l:
        a.y.append(x)
        b.y.append(s)
    return a.y, b.y


def alias_loop_union(n, m, s, l, t, d):
    a, b = [], []
    for x in l:
        c = a if x == s else b
        c.append(x)
    return a, b


def alias_loop_choice(n, m, s, l, t, d):
    a, b = [], []
    c = a
    for x in l:
        if x == s: c = b
        c.append(x)
    return a, b, c


def alias_loop_choice_obj(n, m, s, l, t, d):
    a, b = Base_(0), Base_(0)
    c = a
    for x in l:
        if x == s: c = b
        c.x += 1
    return a.x, b.x, c.x


def alias_guarded(n, m, s, l, t, d):
    a, b = [], []
    c = a
    for x in [y for y in t if y > n]:
        c = b
        c.append(x)
    a.append('z')
    return a, b, c


def alias_index(n, m, s, l, t, d):
    a, b = [], []
    (a, b)[n > 0].append(m)
    c = (a, b)[m > 0]
    a.append(5)
    return a, b, c


def alias_dict_get(n, m, s, l, t, d):
    a, b = [], []
    e = {'a': a, 'b': b}
    c = e.get(s, b)
    c.append(n)
    b.append(m)
    return a, b, c


def alias_dict_key(n, m, s, l, t, d):
    a, b = [], []
    e = {1: a, 2: b}
    if n in e:
        c = e[n]
        a.append(m)
        return c, a
    return None


def alias_max(n, m, s, l, t, d):
    a, b = Base_(n), Base_(m)
    c = max([a, b], key=lambda q: q.x)
    a.x = 5
    b.x = 6
    return c.x


def alias_comprehension_choice(n, m, s, l, t, d):
    a, b = [], []
    r = [a if x > n else b for x in t]
    a.append('a')
    b.append('b')
    return r


def alias_ternary(n, m, s, l, t, d):
    a, b = [], []
    c = a if n > m else b
    a.append(1)
    return c


def alias_or(n, m, s, l, t, d):
    a = [n] if n > 0 else []
    b = []
    c = a or b
    c.append(m)
    return a, b


def alias_swap_pair(n, m, s, l, t, d):
    a, b = [n], [m]
    if n > m: a, b = b, a
    q = (a, b)
    a.append(0)
    return q


def alias_list_index(n, m, s, l, t, d):
    r = [[], [], []]
    if 0 <= n < 3:
        q = r[n]
        q.append(m)
        r[0].append(s)
        return r, q
    return None


def alias_lambda_default(n, m, s, l, t, d):
    a = []
    f = lambda x, acc=a: acc.append(x)
    for x in t: f(x)
    return a


def alias_pop(n, m, s, l, t, d):
    r = [[1], [2]]
    q = r.pop()
    q.append(n)
    return r, q


def alias_update(n, m, s, l, t, d):
    a = []
    e, f = {'a': a}, {}
    f.update(e)
    f['a'].append(n)
    return e, a


def alias_copy_dict(n, m, s, l, t, d):
    a = []
    e = {'a': a}
    f = dict(e)
    f['b'] = 1
    a.append(n)
    return e, f


def alias_pure_result(n, m, s, l, t, d):
    def made(k):
        if k > 0: q = [k]
        elif k < -5: q = []
        else: q = [k, k]
        return (q, q)
    a, b = made(n)
    a.append(m)
    return a, b


def sum_of_set(n, m, s, l, t, d):
    return sum(s.count(c) for c in {'а', 'о', 'ё'}), sum({1, 2, 3}), sum(x for x in {1, 5} if x > n)


def sum_of_floats(n, m, s, l, t, d):
    try: return sum(x for x in t) + 0.5, sum(x / 2 for x in [1, 2, 3])
    except TypeError: return 'no'


def sum_of_generator(n, m, s, l, t, d):
    return sum(x / 4 for x in t if x > n), sum([0.25, 0.5], n)


def slice_backwards(n, m, s, l, t, d):
    k = l[::-1]
    l.append('z')
    return k, l[::-1], t[::-1], t[::2], t[2:0:-1], t[5:-9:-2], k[::1]


def slice_backwards_kept(n, m, s, l, t, d):
    kept = [x for x in l if x != s]
    for x in kept[::-1]:
        return x
    return None


def slice_zero(n, m, s, l, t, d):
    try: return t[::n - n]
    except ValueError: return 'error'


def slice_pairs(n, m, s, l, t, d):
    u = (n, m, s)
    return u[::-1], [a == b for a, b in zip(t, t[::-1])]


def loop_stores(n, m, s, l, t, d):
    r = {}
    for k in (1, 2, 3, 4, 5, 6, 7, 8, 9):
        if k == n: r[k] = m
    return r, list(r), list(r.items())


def loop_stores_order(n, m, s, l, t, d):
    r = {}
    for k in ('a', 'b', 'a', 'c', 'b', 'd', 'a', 'e', 'a'):
        if len(r) < n: r[k] = len(r)
        elif k in r and m > 0: del r[k]
    return list(r), list(r.values())


def loop_stores_reorder(n, m, s, l, t, d):
    r = {}
    for k, x in ((n, 'a'), (1, 'b'), (2, 'c'), (3, 'd'), (m, 'a'), (5, 'e'), (6, 'f'), (7, 'g'), (8, 'h')):
        if x == 'a' and k > 3: r['a'] = k
        if x == 'b' and n < 3: r['b'] = k
    return list(r), r.get('a')


def loop_new_objects(n, m, s, l, t, d):
    r, last = [], None
    for k in range(9):
        if k == n: last = [k]
        elif k == m: r.append(last)
    if last is not None: last.append(m)
    return r, last


def loop_leaves(n, m, s, l, t, d):
    seen = []
    for k in range(10):
        if k == n: break
        if k == m: continue
        seen.append(k)
    else:
        seen.append('all')
    return seen, k


def loop_best(n, m, s, l, t, d):
    best, at = None, None
    for i, k in enumerate((n, m, 3, n + m, 4, n - m, 7, 1, 2)):
        if best is None or k > best: best, at = k, i
    return best, at


def loop_lists_of_lists(n, m, s, l, t, d):
    rows = [[], [], []]
    for k in range(9):
        row = rows[0] if k == n else rows[1]
        row.append(k)
    return rows


def loop_sets(n, m, s, l, t, d):
    q = set()
    for k in (n, m, 1, 2, 3, 4, 5, 6):
        if k > 2: q.add(k)
    return len(q), n in q


def loop_raises(n, m, s, l, t, d):
    out = []
    try:
        for k in (1, 2, 3, 4, 5, 6, 7, 8):
            if k == n: raise KeyError(k)
            if k == m: out.append(k)
    except KeyError as e: return out, e.args
    return out


def zip_known(n, m, s, l, t, d):
    return list(zip((1, 2, 3), l)), [(a, b) for a, b in zip(l, 'abcdefg')], dict(zip(('x', 'y'), t))


def zip_known_many(n, m, s, l, t, d):
    out = []
    for k, a, b in zip((1, 2, 3, 4), l, t):
        if k > n: out.append(a)
    return out, len(list(zip((1, 2), l))), [k for k, a in zip(range(5), l) if a]


def zip_known_numbered(n, m, s, l, t, d):
    return list(enumerate(zip((1, 2), l)))


def star_first(n, m, s, l, t, d):
    try: a, *b = l
    except ValueError: return 'empty'
    b.append('z')
    return a, b, l


def star_last(n, m, s, l, t, d):
    try: *a, b, c = t
    except ValueError: return 'short'
    return a, b, c


def star_middle(n, m, s, l, t, d):
    try: a, *b, c = s.split('о') if n else t
    except ValueError: return 'short'
    return a, b, c, [x for x in b]


def star_generator(n, m, s, l, t, d):
    a, *b = (x for x in (n, m, 3))
    (c, *e), f = ((1, 2, 3), 4)
    return a, b, c, e, f


def div_mod(n, m, s, l, t, d):
    a, b = divmod(n, 10)
    return a, b, divmod(m % 7, 3), a * 10 + b == n


def while_index(n, m, s, l, t, d):
    i, out = 0, []
    while i < len(l):
        if l[i] != s: out.append(l[i])
        i += 1
    return out, i


def while_index_from(n, m, s, l, t, d):
    i, total = n, 0
    while len(t) > i:
        total += 1
        i += 1
    return total, i


def while_index_changing(n, m, s, l, t, d):
    i, k = 0, list(l)
    while i < len(k):
        if k[i] == s and len(k) < 8: k.append('z')
        i += 1
    return k, i


def while_index_changing_attr(n, m, s, l, t, d):
    class Box(object):
        def __init__(self): self.xs = list(l)
        def drop(self): self.xs = self.xs[1:]
    b, i = Box(), 0
    while i < len(b.xs):
        b.drop()
        i += 1
    return b.xs, i


def while_pop(n, m, s, l, t, d):
    k, out = list(l), ''
    while k:
        x = k.pop(0)
        if x: out = x
    return out, k


def while_pop_last(n, m, s, l, t, d):
    k, out = list(l), None
    while k:
        x = k.pop()
        out = x
    return out, k


def while_pop_seen(n, m, s, l, t, d):
    k = list(l)
    other, seen = k, []
    while k:
        x = k.pop(0)
        seen.append(len(other))
    return seen


def while_pop_raises(n, m, s, l, t, d):
    k, out = list(l), None
    try:
        while k:
            x = k.pop(0)
            if x == s: raise KeyError(x)
    except KeyError: out = 'found'
    return out, k


def while_bound(n, m, s, l, t, d):
    i, c = 0, 0
    while i < n:
        c += 2
        i += 1
    return c, i


def while_bound_changed(n, m, s, l, t, d):
    i = 0
    while i < n:
        if i == m: n = 2
        i += 1
    return n, i


def slice_composite(n, m, s, l, t, d):
    k = ['a'] + l + ['b', 'c']
    return k[1:], k[:-1], k[:-2], k[:-3], k[2:], k[0:-1]


def star_composite(n, m, s, l, t, d):
    a, *b = ['a'] + l + ['b']
    return a, b


def filter_lambda_loop(n, m, s, l, t, d):
    out = []
    last = None
    for x in filter(lambda y: y != s, l):
        out.append(x)
        last = x
    return out, last


def filter_two_loops(n, m, s, l, t, d):
    a = b = ''
    for x in l:
        if x != s: a = a + x
    for x in filter(lambda y: y != s, l):
        b = b + x
    return a == b


def filter_two_loops_differ(n, m, s, l, t, d):
    a = b = ''
    for x in l:
        a = a + x
    for x in filter(lambda y: y != s, l):
        b = b + x
    return a == b


def dict_update_items(n, m, s, l, t, d):
    a = {1: 'x', 2: s}
    b = {2: 'y'}
    if n > 0: b[3] = s
    if m > 0: b[1] = 'z'
    a.update(b.items())
    b[2] = 'q'
    return a.get(1), a[2], a.get(3), len(a)


def dict_update_pairs(n, m, s, l, t, d):
    a = {1: 'x', 2: s}
    a.update([(k, v) for k, v in ((1, 'p'), (3, s)) if n > k])
    return a.get(1), a[2], a.get(3)


def best_or_none(n, m, s, l, t, d):
    best = who = None
    for x in l:
        k = len(x)
        if best is None or k > best: best, who = k, x
    return best, who


def best_or_none_last(n, m, s, l, t, d):
    best = who = None
    for x in l:
        k = len(x)
        if best is None or k >= best:
            best = k
            who = x
    return best, who


def smallest_or_none(n, m, s, l, t, d):
    best, who = None, 'nobody'
    for x in l:
        if x == s: continue
        if best is not None and len(x) >= best: continue
        best = len(x)
        who = x
    return best, who


def first_or_none(n, m, s, l, t, d):
    best = None
    for x in l:
        if best is None: best = len(x)
    return best


def best_or_none_zero(n, m, s, l, t, d):
    best = None
    for x in l:
        k = len(x)
        if not best or k > best: best = k
    return best


def best_or_none_reset(n, m, s, l, t, d):
    best = None
    for x in l:
        k = len(x)
        if x == s: best = None
        elif best is None or k > best: best = k
    return best


def best_pair(n, m, s, l, t, d):
    best = (-1, None)
    for x in l:
        if best[0] < len(x): best = (len(x), x)
    return best


def best_pair_last(n, m, s, l, t, d):
    best = (0, 'nobody', 'first')
    for x in l:
        if best[0] <= len(x): best = (len(x), x, best[2])
    return best, best[1]


def best_pair_partial(n, m, s, l, t, d):
    best = (-1, None)
    for x in l:
        if best[0] < len(x): best = (len(x), best[1] if x == s else x)
    return best


def best_pair_aside(n, m, s, l, t, d):
    best, c = (-1, None), 0
    for x in l:
        if x == s: best = (best[0], x)
        elif best[0] < len(x):
            best = (len(x), x)
            c = c + 1
    return best, c
