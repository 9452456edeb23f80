# coding: utf-8
"""Lemmas about texts, proved by z3: induction steps over a text written as its first character and the rest.

E(s): s with every % doubled.  open(s): every [ in s is immediately followed, in s, by ].  none(s): no ] in s.
closed_tail(s): at no [ of s does a variable start, that is each is followed by ], or no ] comes after it.

A text is cut, in one way only, into  L(0) V(0) ... L(n-1) V(n-1) tail  with open(L(i)), V(i) = [B(i)], B(i) not empty, none(B(i)),
closed_tail(tail): V(0), ... are the matches of \\[[^\\]]+\\], left to right (trusted: what re.findall finds).
Here: doubling the percent signs keeps the cut (so the matches in E(text) are E(V(i))), and with  A(0) = '',
A(i+1) = A(i) E(L(i)) %s,  S(i) = E(L(i)) E(V(i)) S(i+1),  S(n) = E(tail)  the first occurrence of E(V(i)) in A(i) S(i) is the one after
A(i) E(L(i)); putting %s for it gives A(i+1) S(i+1).
"""
import z3

S = z3.StringSort()
E = z3.Function('E', S, S)
NONE = z3.Function('none', S, z3.BoolSort())
TAIL = z3.Function('closed_tail', S, z3.BoolSort())
v = z3.StringVal
And, Or, Not, Implies, If, Length = z3.And, z3.Or, z3.Not, z3.Implies, z3.If, z3.Length


def at(s, i): return z3.SubString(s, i, 1)


def follows(s, p):
    """the instance of open(s) at position p"""
    return Implies(And(p >= 0, p < Length(s), at(s, p) == v('[')), And(p + 1 < Length(s), at(s, p + 1) == v(']')))


def unfold(c, s):
    """what the definitions say about a text that begins with the character c"""
    x = z3.Concat(c, s)
    return [E(x) == z3.Concat(If(c == v('%'), v('%%'), c), E(s)),
            NONE(x) == And(c != v(']'), NONE(s)),
            TAIL(x) == And(TAIL(s), Implies(c == v('['), Or(z3.PrefixOf(v(']'), s), NONE(s))))]


EMPTY = [E(v('')) == v(''), NONE(v('')), TAIL(v(''))]


def lemmas():
    c, d, s, t, a, x, b, P, V, R, L = z3.Strings('c d s t a x b P V R L')
    p, q, j = z3.Ints('p q j')
    char = [Length(c) == 1, Length(d) == 1]
    # s is empty or begins with d
    cases = lambda: [Or(s == v(''), And(s == z3.Concat(d, t), *unfold(d, t)))] + EMPTY + [Implies(s == v(''), And(E(s) == v(''), NONE(s), TAIL(s)))]
    head = z3.PrefixOf(v(']'), E(s)) == z3.PrefixOf(v(']'), s)
    yield 'E keeps whether a text begins with ]', char + cases(), head
    yield 'E keeps emptiness', char + cases(), (E(s) == v('')) == (s == v(''))
    yield 'E of a concatenation: empty', EMPTY, E(z3.Concat(v(''), b)) == z3.Concat(E(v('')), E(b))
    yield 'E of a concatenation: step', char + unfold(c, a) + unfold(c, z3.Concat(a, b)) + [E(z3.Concat(a, b)) == z3.Concat(E(a), E(b))], E(z3.Concat(c, a, b)) == z3.Concat(E(z3.Concat(c, a)), E(b))
    yield 'E keeps none: step', char + unfold(c, s) + unfold(v('%'), E(s)) + unfold(v('%'), z3.Concat(v('%'), E(s))) + unfold(c, E(s)) + [NONE(E(s)) == NONE(s)], NONE(E(z3.Concat(c, s))) == NONE(z3.Concat(c, s))
    yield 'E keeps closed_tail: step', char + unfold(c, s) + unfold(v('%'), E(s)) + unfold(v('%'), z3.Concat(v('%'), E(s))) + unfold(c, E(s)) + [NONE(E(s)) == NONE(s), TAIL(E(s)) == TAIL(s), head], \
        TAIL(E(z3.Concat(c, s))) == TAIL(z3.Concat(c, s))
    # open
    cs = z3.Concat(c, s)
    yield 'open: the rest of an open text is open', char + [follows(cs, q + 1)], follows(s, q)
    yield 'open: after [ the rest begins with ]', char + [follows(cs, z3.IntVal(0)), c == v('[')], z3.PrefixOf(v(']'), s)
    k = If(c == v('%'), v('%%'), c)
    yield 'E keeps open: step', char + unfold(c, s) + [follows(E(s), p - Length(k)), Implies(c == v('['), z3.PrefixOf(v(']'), E(s))), Or(c != v('%'), Length(k) == 2), Or(c == v('%'), Length(k) == 1)], \
        follows(z3.Concat(k, E(s)), p)
    yield 'open: concatenation, in the first', [follows(a, p), p >= 0, p < Length(a)], follows(z3.Concat(a, b), p)
    # in the second: the first cut to its characters before position p, and the position of p in the second
    yield 'open: concatenation, in the second', [follows(b, q), q >= 0, p == Length(a) + q] + [at(z3.Concat(a, b), Length(a) + k) == at(b, k) for k in (q, q + 1)], follows(z3.Concat(a, b), p)
    yield 'characters of a concatenation', [q >= 0], at(z3.Concat(a, b), Length(a) + q) == at(b, q)
    yield 'open: %s', [], follows(v('%s'), p)
    # variables
    yield 'a doubled variable begins with [ and not with []', [Length(c) == 1, c != v(']')] + unfold(c, s) + unfold(v('['), z3.Concat(c, s, v(']'))) + [E(z3.Concat(c, s, v(']'))) == z3.Concat(E(z3.Concat(c, s)), v(']'))], \
        And(at(E(z3.Concat(v('['), c, s, v(']'))), 0) == v('['), at(E(z3.Concat(v('['), c, s, v(']'))), 1) != v(']'), Length(E(z3.Concat(v('['), c, s, v(']')))) >= 2)
    # an occurrence of V at j, before the end of P: its first two characters stand at j and j + 1 of P V R; when P goes on there, in P
    yield 'no earlier occurrence', [at(V, 0) == v('['), at(V, 1) != v(']'), j >= 0, j < Length(P), follows(P, j), at(P, j) == at(V, 0), Implies(j + 1 < Length(P), at(P, j + 1) == at(V, 1))], z3.BoolVal(False)
    yield 'characters of the first part', [j >= 0, j < Length(P)], at(z3.Concat(P, R), j) == at(P, j)
    yield 'the rewritten text', [], z3.Concat(P, v('%s'), R) == z3.Concat(z3.Concat(P, v('%s')), R)


def prove_all():
    n = 0
    for name, hyps, goal in lemmas():
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*hyps)
        s.add(z3.Not(goal))
        r = s.check()
        if r != z3.unsat: raise Exception('lemma not proved: %s (%s)' % (name, r))
        n += 1
    return n
