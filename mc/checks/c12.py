"""C12 Array operations act elementwise and array functions follow list semantics.

Elementwise operators and functions are compared with the same operator or function on the elements one by one; ranges and list functions
with an exact reference (lists of observed elements, exact rationals in SI).
"""
from fractions import Fraction as F
import itertools

from mc.core import Space
from mc import calc
from mc.units import size_vec, BYNAME, BYSYMBOL

ASSUMPTIONS = ['the result on single elements is decided by the other properties: here an array must give the array of those',
               'filter with a list of booleans of another length, and an index that is not a whole number, are not stated']

E = ['1', '-2.5', '(1/3)', '0', '0x0a', '0b11', '2 m', '3 ft', '4 s', "'a'", "'10'", 'true', 'false', "'2020-01-31'"]
BIN = ['^', '=~', '!~', '*', '/', '%', '\\', '*$', '+', '-', '+$', '+%', '-%', '<<', '>>', '<', '>', '<=', '>=', '<$', '>$', '<=$', '>=$', '<~', '>~', '<=~', '>=~',
       '==', '!=', '==$', '!=$', '==~', '!=~', '&', '|', '^^', 'and', 'or', 'xor']
PRE = ['not ', '~']
SKIP = {'^': {'(1/3)', '-2.5'}}      # powers with huge or rounded results add nothing


def C():
    return calc.shared()


_scalar = {}


def scalar(text):
    """observation of one expression on scalars"""
    if text not in _scalar:
        _scalar[text] = calc.obs1(C(), text, True)
    return _scalar[text]


def elements(o):
    """observed elements of an array result"""
    r = o.last()
    return [(calc.val_obs(e.value, C(), True), calc.unit_obs(e.unit)) for e in r.value] if isinstance(r.value, list) else None


def same(elem, want):
    if want[0] == 'err':
        return elem[0] == ('err',)
    return want[0] == 'ok' and elem == (want[1], want[2])


def expect(text, wants, rec, what, tag=None, o=None):
    o = o or calc.run(C(), text)
    rec.step()
    if o.kind == 'crash' or any(w[0] == 'crash' for w in wants):
        return rec.bad('crash', text, repr(o.exc)[:200])
    if not o.ok():
        return rec.bad(what + ': refused', [text, wants[:3]], o.message)
    got = elements(o)
    if got is None or len(got) != len(wants):
        return rec.bad(what + ': not an array of the same length', [text, len(wants)], calc.res_obs(o.last(), C()))
    rec.state((text, tuple(map(repr, got))))
    for i, (g, w) in enumerate(zip(got, wants)):
        if not same(g, w):
            return rec.bad(what, [text, i, w], g)
    return True


def arr(xs):
    return '[' + ', '.join(xs) + ']'


def rot(xs, k):
    return xs[k:] + xs[:k]


# ------------------------------------------------------------------ operators

def g_ops(tier):
    for op in BIN:
        for k in range(len(E)):
            yield ['rot', op, k]
        yield ['short', op]
        yield ['nested', op]
        yield ['len', op]
    for op in PRE:
        yield ['pre', op]
    yield ['cond']
    yield ['units']


def c_ops(case, rec):
    kind = case[0]
    if kind == 'rot':
        _, op, k = case
        xs = [e for e in E if e not in SKIP.get(op, ())]
        ys = rot(xs, k % len(xs))
        expect('%s %s %s' % (arr(xs), op, arr(ys)), [scalar('(%s) %s (%s)' % (a, op, b)) for a, b in zip(xs, ys)], rec, 'array with array')
        e = ys[0]
        expect('%s %s (%s)' % (arr(xs), op, e), [scalar('(%s) %s (%s)' % (a, op, e)) for a in xs], rec, 'array with scalar')
        expect('(%s) %s %s' % (e, op, arr(xs)), [scalar('(%s) %s (%s)' % (e, op, a)) for a in xs], rec, 'scalar with array')
        o = calc.run(C(), 'x_ = %s\ny_ = %s\nx_ %s y_\nx_\ny_' % (arr(xs), arr(ys), op))
        rec.step()
        if rec.check(o.ok(), 'variables: refused', [op, k], o.message):
            rs = o.results
            got = [(calc.val_obs(v.value, C(), True), calc.unit_obs(v.unit)) for v in rs[2].value]
            wants = [scalar('(%s) %s (%s)' % (a, op, b)) for a, b in zip(xs, ys)]
            rec.check(all(same(g, w) for g, w in zip(got, wants)) and len(got) == len(wants), 'variables', [op, xs, ys, [str(w) for w in wants]], got)
            rec.check(calc.res_obs(rs[0], C(), True) == calc.res_obs(rs[3], C(), True) and calc.res_obs(rs[1], C(), True) == calc.res_obs(rs[4], C(), True),
                      'operands changed', [op, k], [calc.res_obs(rs[3], C()), calc.res_obs(rs[4], C())])
        calc.run(C(), 'reset()')
    elif kind == 'short':
        op = case[1]
        small = ['2', '0x0a', "'a'", '3 m']
        lists = [list(p) for n in (1, 2) for p in itertools.product(small, repeat=n)]
        for xs in lists:
            for ys in lists:
                if len(xs) == len(ys):
                    expect('%s %s %s' % (arr(xs), op, arr(ys)), [scalar('(%s) %s (%s)' % (a, op, b)) for a, b in zip(xs, ys)], rec, 'array with array')
    elif kind == 'nested':
        op = case[1]
        xs, ys = ['2', '0x0a', '5'], ['3', '1', '7']
        for n in range(3):
            inner = arr(xs[n:] or ['1'])
            text = '[%s, %s] %s %s' % ('4', inner, op, '3')
            o = calc.run(C(), text)
            rec.step()
            if not rec.check(o.ok() and isinstance(o.last().value, list) and len(o.last().value) == 2, 'nested', text, o.obs(C()) if o.ok() else o.message):
                continue
            sub = o.last().value[1]
            wants = [scalar('%s %s 3' % (a, op)) for a in xs[n:] or ['1']]
            ok = same(elements(o)[0], scalar('4 %s 3' % op)) and isinstance(sub.value, list) and len(sub.value) == len(wants) and \
                all(same((calc.val_obs(e.value, C(), True), calc.unit_obs(e.unit)), w) for e, w in zip(sub.value, wants))
            rec.check(ok, 'nested', [text, [str(w) for w in wants]], elements(o))
    elif kind == 'len':
        op = case[1]
        for a, b in itertools.permutations(range(1, 5), 2):
            for left in (['2', '3', '1', '0'], ["'a'", "'b'", "'c'", "'d'"]):
                o = calc.run(C(), '%s %s %s' % (arr(left[:a]), op, arr(left[:b])))
                rec.step()
                rec.check(o.err(), 'different lengths accepted', [op, a, b], o.obs(C()) if o.ok() else repr(o.exc))
    elif kind == 'pre':
        xs = [e for e in E if not e.startswith('-')]
        expect('%s%s' % (case[1], arr(xs)), [scalar(case[1] + a) for a in xs], rec, 'prefix operator')
    elif kind == 'cond':
        for n in (1, 2, 3):
            for conds in itertools.product(['true', 'false', "'a'"], repeat=n):
                for forms in itertools.product(range(2), repeat=2):
                    t = ['1', '2 m', "'x'"][:n]
                    f = ['0x0a', "'y'", '5'][:n]
                    tt = arr(t) if forms[0] else '7 s'
                    ff = arr(f) if forms[1] else "'z'"
                    wants = [scalar('%s then %s else %s' % (c, t[i] if forms[0] else '7 s', f[i] if forms[1] else "'z'")) for i, c in enumerate(conds)]
                    expect('%s then %s else %s' % (arr(conds), tt, ff), wants, rec, 'conditional')
    elif kind == 'units':
        xs = ['2 m', '3 ft', '4', '5 s', "'a'", '2 km']
        for u in ('m', 'ft', 's', 'km', 'm^2'):
            expect('%s to %s' % (arr(xs), u), [scalar('%s to %s' % (a, u)) for a in xs], rec, 'conversion')
            ys = ['1', '2', '0x0a']
            expect('%s %s' % (arr(ys), u), [scalar('%s %s' % (a, u)) for a in ys], rec, 'units given to an array')
        for a, b in itertools.product(['2', '(1/3)', '0x0a', '3 m'], repeat=2):
            expect('2 %s' % arr([a, b]), [scalar('2 (%s)' % x) for x in (a, b)], rec, 'implicit multiplication')


# ------------------------------------------------------------------ functions

P = ["'ab'", '2', '-1.5', '0x0a', '3 m', "'2020-01-31'", "'b'", '0.5', 'true']
P3 = ["'abcb'", '2', "'b'", '0x01', '3 hours', '0.5']
ARITY = {'abs': (1,), 'acos': (1,), 'acosh': (1,), 'asin': (1,), 'asinh': (1,), 'atan': (1,), 'atanh': (1,), 'base': (2,), 'bin': (1,), 'ceil': (1, 2), 'compact': (1,), 'cos': (1,),
         'cosh': (1,), 'dateadd': (2,), 'datedifference': (2,), 'dateformat': (1,), 'datesubtract': (2,), 'dec': (1,), 'exp': (1,), 'fact': (1,), 'find': (2,), 'floor': (1, 2),
         'format': (1,), 'gcd': (2,), 'hex': (1,), 'lcm': (2,), 'length': (1,), 'log': (1, 2), 'lower': (1,), 'lstrip': (2,), 'oct': (1,), 'regexcount': (2,), 'regexget': (2, 3),
         'regexsplit': (2,), 'regexsub': (3, 4), 'replace': (3,), 'round': (1, 2), 'rstrip': (2,), 'scientific': (1, 2), 'sin': (1,), 'sinh': (1,), 'split': (2,), 'strip': (2,),
         'substr': (2, 3), 'tan': (1,), 'tanh': (1,), 'upper': (1,), 'sp_beta': (2,), 'sp_gamma': (1,), 'sp_ellipj_cn': (2,), 'sp_betainc': (3,), 'sp_hyp2f1': (4,)}
TAG = {'element': ('element([7, 0x0b, 3 m], %s)', ['1', '2', '3', '4', '0', "'a'", '0b10']),
       'join': ("join(['a', 'b', 'c'], %s)", ["','", "''", '12', 'true']),
       'format2': ('format(%s, si)', ['2 m', '3 ft', '4 s', '5', "'a'"]),
       'datedifference3': ("datedifference(%s, '2020-03-01', hours)", ["'2020-01-31'", "'2021-01-31'", "'x'", '5'])}


def g_funcs(tier):
    for f, ns in ARITY.items():
        for n in ns:
            pool = P if n < 3 else P3
            if n == 1:
                yield [f, 1, 0]
            else:
                for k in range(len(pool)):
                    yield [f, n, k]
    for t in TAG:
        yield [t, 0, 0]


def c_funcs(case, rec):
    f, n, k = case
    if n == 0:
        form, xs = TAG[f]
        for m in range(1, len(xs) + 1):
            for s in range(len(xs) - m + 1):
                ys = xs[s:s + m]
                expect(form % arr(ys), [scalar(form % y) for y in ys], rec, 'function')
        return
    if n == 1:
        for s in range(len(P)):
            for m in (1, 2, len(P)):
                ys = rot(P, s)[:m]
                expect('%s(%s)' % (f, arr(ys)), [scalar('%s(%s)' % (f, y)) for y in ys], rec, 'function')
        expect('%s([%s, %s])' % (f, '3', arr(['2', '4']))[:-1] + ')', None, rec, 'nested') if False else None
        return
    pool = P if n == 2 else P3
    cols = [pool] + [rot(pool, (k * (i + 1) + i) % len(pool)) for i in range(n - 1)]
    for mask in range(1, 2 ** n):
        if n > 2 and mask not in (1, 2, 2 ** n - 1, 4, 3):
            continue
        for shift in range(len(pool) if n == 2 else 2):
            args, per = [], []
            for i in range(n):
                if mask >> i & 1:
                    args.append(arr(cols[i]))
                    per.append(cols[i])
                else:
                    e = pool[(shift + i) % len(pool)]
                    args.append(e)
                    per.append([e] * len(pool))
            wants = [scalar('%s(%s)' % (f, ', '.join(row))) for row in zip(*per)]
            expect('%s(%s)' % (f, ', '.join(args)), wants, rec, 'function')
            if mask == 2 ** n - 1:
                break
    for a, b in ((1, 2), (3, 2)):
        args = [arr(pool[:a]), arr(pool[:b])] + [pool[0]] * (n - 2)
        o = calc.run(C(), '%s(%s)' % (f, ', '.join(args)))
        rec.step()
        rec.check(o.err(), 'different lengths accepted', [f, args], o.obs(C()) if o.ok() else repr(o.exc))


# ------------------------------------------------------------------ ranges

POINTS = ['-2', '0', '1', '2.5', '(1/3)', '4', '0x0a', '7']
STEPS = [None, '1', '-1', '0.5', '(1/3)', '-2.5', '0', '7', '0b10', '0.1']
PV = {'-2': F(-2), '0': F(0), '1': F(1), '2.5': F(5, 2), '(1/3)': F(1, 3), '4': F(4), '0x0a': F(10), '7': F(7), '-1': F(-1), '0.5': F(1, 2), '-2.5': F(-5, 2), '0b10': F(2),
      '0.1': F(1, 10), '-1000': F(-1000), '300': F(300), '0.25': F(1, 4), '3': F(3), '10': F(10), '1000': F(1000), '-3': F(-3), '2': F(2), '100': F(100), '-100': F(-100)}
RU = ['', 'm', 'km', 'ft', 's', 'Celsius', 'Fahrenheit', 'K']
BYSYMBOL.setdefault('Celsius', BYNAME['Celsius'])


def g_ranges(tier):
    for a in POINTS:
        for b in POINTS:
            yield ['n', a, b]
    for ua, ub, us in itertools.product(RU, RU, RU + [None]):
        yield ['u', ua, ub, us]
    for n in range(-3, 12):
        yield ['in', n]
    if tier != 'quick':
        for a in range(-12, 13):
            yield ['grid', a]


def conv(v, a, b, rel):
    """value v in unit a expressed in b; None if impossible"""
    if a == b:
        return v
    if '' in (a, b):
        return None
    scale = {'m': ('d', F(1)), 'km': ('d', F(1000)), 'ft': ('d', F('0.3048')), 's': ('t', F(1)), 'K': ('T', F(1)), 'Celsius': ('T', F(1)), 'Fahrenheit': ('T', F(5, 9))}
    off = {'Celsius': F('273.15'), 'Fahrenheit': F('459.67')}
    (da, sa), (db, sb) = scale[a], scale[b]
    if da != db:
        return None
    if rel:
        return v * sa / sb
    return (v + off.get(a, 0)) * sa / sb - off.get(b, 0)


def span(a, b, s):
    if s is None:
        s = F(1) if b >= a else F(-1)
    if s == 0 or (b - a) * s < 0:
        return None
    out = []
    x = a
    while (s > 0 and x <= b) or (s < 0 and x >= b):
        out.append(x)
        x += s
    return out


def c_ranges(case, rec):
    if case[0] in ('n', 'grid'):
        if case[0] == 'n':
            todo = [(case[1], case[2], s) for s in STEPS]
        else:
            todo = [(calc.lit(F(case[1], d)), calc.lit(F(b, 3)), calc.lit(F(s, e))) for d in (1, 4, 7) for b in range(-10, 11) for s in range(-4, 5) for e in (1, 3)]
        for a, b, s in todo:
            val = (lambda t: PV[t]) if case[0] == 'n' else (lambda t: F(t.strip('()')))
            text = '[%s..%s%s]' % (a, b, '' if s is None else ' step ' + s)
            want = span(val(a), val(b), None if s is None else val(s))
            o = calc.run(C(), text)
            rec.step()
            if want is None:
                rec.check(o.err(), 'impossible range accepted', text, o.obs(C()) if o.ok() else repr(o.exc))
                continue
            if not rec.check(o.ok(), 'range refused', [text, len(want)], o.message):
                continue
            vs = o.last().value
            rec.state((text, len(vs)))
            rec.check([calc.frac(v.value) for v in vs] == want and all(v.unit is None for v in vs), 'range', [text, list(map(str, want))], calc.res_obs(o.last(), C()))
            if len(want) > 1 and case[0] == 'n':
                st = '2' if s == '0b10' else s if s is not None else ('1' if want[1] > want[0] else '-1')
                tx = [calc.num_text(v.value, C()) for v in vs]
                ref = [scalar(a if k == 0 else '%s + %d * (%s)' % (a, k, st) if k != 0 else a)[1][2] for k in range(len(vs))] if st[0] != '-' else \
                    [scalar(a if k == 0 else '%s + %d * %s' % (a, k, st))[1][2] for k in range(len(vs))]
                rec.check(tx == ref, 'representation of a range', [text, ref], tx)
            for name, w in (('sum', sum(want)), ('count', len(want)), ('max', max(want)), ('min', min(want))):
                p = calc.run(C(), '%s(%s)' % (name, text))
                rec.step()
                rec.check(p.ok() and calc.frac(p.last().value) == w, 'range in ' + name, [text, str(w)], p.obs(C()) if p.ok() else p.message)
    elif case[0] == 'u':
        _, ua, ub, us = case
        for a, b, s in (('1', '3', '0.5'), ('3', '1', '-1'), ('-2', '10', '3'), ('300', '-100', '-100'), ('2', '2', '1')):
            if us is None and s != '0.5' and a != '3':
                pass
            if us is not None and us == '' and (ua or ub) is False:
                continue
            text = '[%s..%s%s]' % ((a + ' ' + ua).strip(), (b + ' ' + ub).strip(), '' if us is None else ' step ' + (s + ' ' + us).strip())
            vb = conv(PV[b], ub, ua, False)
            vs = None if us is None else conv(PV[s], us, ua, True)
            bad = vb is None or (us is not None and vs is None)
            want = None if bad else span(PV[a], vb, vs)
            if want is not None and len(want) > 3000:
                continue
            if not bad and abs((vb - PV[a]) / (vs or 1)) > 3000:
                continue
            o = calc.run(C(), text)
            rec.step()
            if want is None:
                rec.check(o.err(), 'impossible range accepted', text, o.obs(C()) if o.ok() else repr(o.exc))
                continue
            if not rec.check(o.ok(), 'range refused', [text, len(want)], o.message):
                continue
            vv = o.last().value
            rec.check([calc.frac(v.value) for v in vv] == want, 'range', [text, [str(w) for w in want[:6]], len(want)], str(calc.res_obs(o.last(), C()))[:300])
            u = scalar('1 ' + ua)[2] if ua else None
            rec.check(all(calc.unit_obs(v.unit) == u for v in vv), 'unit of a range', text, str(calc.res_obs(o.last(), C()))[:300])
    else:
        n = case[1]
        for text, want in (("['a', %d..3, true]" % n, ['s'] + [F(i) for i in (range(n, 4) if n <= 3 else range(n, 2, -1))] + ['b']),
                           ('[1..2, 5, %d..%d]' % (n, n + 2), [F(1), F(2), F(5), F(n), F(n + 1), F(n + 2)]),
                           ('[%d..5 step 2, 7..6]' % n, [F(i) for i in range(n, 6, 2)] + [F(7), F(6)] if n <= 5 else None),
                           ('[1+1..%d*1]' % n, span(F(2), F(n), None)), ('[(2)..sum([1,%d])]' % n, span(F(2), F(n + 1), None))):
            o = calc.run(C(), text)
            rec.step()
            if want is None:
                rec.check(o.err(), 'impossible range accepted', text, o.obs(C()) if o.ok() else None)
                continue
            if rec.check(o.ok(), 'range refused', text, o.message):
                got = ['s' if isinstance(v.value, str) else 'b' if isinstance(v.value, bool) else calc.frac(v.value) for v in o.last().value]
                rec.check(got == want, 'range among elements', [text, list(map(str, want))], list(map(str, got)))
        for bad in ("['a'..%d]" % n, "[%d..'a']" % n, "[%d..5 step 'a']" % n, '[%d..[1]]' % n):
            o = calc.run(C(), bad)
            rec.step()
            rec.check(o.err(), 'not numbers, still a range', bad, o.obs(C()) if o.ok() else repr(o.exc))


# ------------------------------------------------------------------ list functions

LE = ['1', '0x0a', '3 m', '2 ft', '(1/3)', "'a'", '-2', 'true', '[5, 0b11]']
SI = {'1': ('n', F(1)), '0x0a': ('n', F(10)), '3 m': ('d', F(3)), '2 ft': ('d', F('0.6096')), '(1/3)': ('n', F(1, 3)), '-2': ('n', F(-2)), '1 km': ('d', F(1000)), '12 in': ('d', F('0.3048')),
      '1 ft': ('d', F('0.3048')), '0b1': ('n', F(1)), '0b11': ('n', F(3)), '5 s': ('t', F(5))}


# values that only differ far beyond the precision of a machine number, or are far apart
NEAR = ['100000000000000000000', '100000000000000000001', '(100000000000000000000 + 1/3)', '0.1', '0.1000000000000000000001', '(1/3)', '0.3333333333333333333333',
        '-100000000000000000000', '-100000000000000000001', '1E60', '-1E60', '(1/7)', '(2/14)', '0']
NV = [F(10 ** 20), F(10 ** 20 + 1), F(10 ** 20) + F(1, 3), F(1, 10), F(1, 10) + F(1, 10 ** 22), F(1, 3), F('0.3333333333333333333333'), F(-10 ** 20), F(-10 ** 20 - 1),
      F(10 ** 60), -F(10 ** 60), F(1, 7), F(1, 7), F(0)]


def g_lists(tier):
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for first in range(len(LE)):
            for second in range(len(LE)) if n > 2 else [None]:
                yield ['fn', n, first, second]
    for n in (2, 3, 4):
        for first in ('1', '0b1', '1 ft', '12 in', '-2', '1 km', '0x0a', '5 s'):
            yield ['sort', n, first]
    for n in (2, 3) if tier == 'quick' else (2, 3, 4):
        for first in range(len(NEAR)):
            yield ['near', n, first]


def one_list(xs, rec, tier_full):
    t = arr(xs)
    obs = [scalar(x) for x in xs]
    expect('reverse(%s)' % t, obs[::-1], rec, 'reverse')
    o = calc.obs1(C(), 'count(%s)' % t)
    rec.step()
    rec.check(o == ('ok', ('n', str(len(xs))), None), 'count', t, o)
    for i in range(-1, len(xs) + 2):
        o = calc.obs1(C(), 'element(%s, %d)' % (t, i), True)
        rec.step()
        rec.check(o == obs[i - 1] if 1 <= i <= len(xs) else o == ('err',), 'element', [t, i, obs[i - 1] if 1 <= i <= len(xs) else 'refused'], o)
    o = calc.obs1(C(), 'element(%s, 0b%s)' % (t, bin(len(xs))[2:]), True)
    rec.check(o == obs[-1], 'element with a binary index', [t, obs[-1]], o)
    for mask in itertools.product([True, False], repeat=len(xs)):
        expect('filter(%s, %s)' % (t, arr(['true' if m else 'false' for m in mask])), [w for w, m in zip(obs, mask) if m], rec, 'filter')
    for ys in (['7'], ["'b'", '0x0b', '4 s'], [xs[0]], xs):
        expect('concat(%s, %s)' % (t, arr(ys)), obs + [scalar(y) for y in ys], rec, 'concat')
    # through a variable, which stays as it was
    for f in ('reverse(x_)', 'concat(x_, x_)', 'filter(x_, %s)' % arr(['true'] * len(xs)), 'element(x_, 1)', 'count(x_)', 'concat(x_, [99])', 'sort(x_)'):
        o = calc.run(C(), 'x_ = %s' % t)
        a = calc.res_obs(o.last(), C(), True)
        calc.run(C(), f)
        b = calc.obs1(C(), 'x_', True)
        rec.step(3)
        rec.check(b == ('ok',) + a, 'input changed', [f, t, a], b)
        calc.run(C(), 'reset()')


def c_lists(case, rec):
    if case[0] == 'fn':
        _, n, a, b = case
        head = [LE[a]] if b is None else [LE[a], LE[b]]
        for rest in itertools.product(LE if n < 4 else LE[:6], repeat=n - len(head)):
            one_list(head + list(rest), rec, n < 3)
        return
    if case[0] == 'near':
        for rest in itertools.product(range(len(NEAR)), repeat=case[1] - 1):
            ix = [case[2]] + list(rest)
            vs = [NV[i] for i in ix]
            t = arr([NEAR[i] for i in ix])
            for name, want in (('sort(%s)', sorted(vs)), ('reverse(sort(%s))', sorted(vs)[::-1]), ('element(sort(%s), 1)', min(vs)), ('min(%s)', min(vs)), ('max(%s)', max(vs)), ('element(sort(%s), ' + str(len(ix)) + ')', max(vs))):
                o = calc.run(C(), name % t)
                rec.step()
                got = None
                if o.ok():
                    v = o.last().value
                    got = [calc.frac(x.value) for x in v] if isinstance(v, list) else calc.frac(v)
                rec.check(got == want, 'order', [name % t, str(want)], str(got))
            rec.state(ix)
        return
    _, n, first = case
    pool = ['1', '0b1', '1 ft', '12 in', '-2', '1 km', '0x0a', '5 s'] if n < 4 else ['1', '0b1', '1 ft', '12 in', '1 km']
    for rest in itertools.product(pool, repeat=n - 1):
        xs = [first] + list(rest)
        kinds = {SI[x][0] for x in xs}
        for text in ('sort(%s)' % arr(xs), 'sort(%s)' % ', '.join(xs)):
            if len(kinds) > 1:
                o = calc.run(C(), text)
                rec.step()
                rec.check(o.err(), 'sorted things that do not compare', text, o.obs(C()) if o.ok() else repr(o.exc))
            else:
                expect(text, [scalar(x) for x in sorted(xs, key=lambda x: SI[x][1])], rec, 'sort')
        expect('reverse(%s)' % ', '.join(xs), [scalar(x) for x in xs[::-1]], rec, 'reverse of arguments')
        o = calc.obs1(C(), 'count(%s)' % ', '.join(xs))
        rec.step()
        rec.check(o == ('ok', ('n', str(n)), None), 'count of arguments', xs, o)


# ------------------------------------------------------------------ histories on one array variable

HOPS = ['x_ = reverse(x_)', 'x_ = concat(x_, [9])', 'x_ = concat([0x0b, 2 m], x_)', 'x_ = filter(x_, M)', 'x_ = [element(x_, 1), element(x_, count(x_))]', 'y_ = x_', 'x_ = concat(y_, x_)',
        'y_ = reverse(x_)', 'x_ = sort(x_)', 'element(x_, 2)', 'x_ * 2', 'y_ = [1..3]']
HSTART = ['[3, 1, 2]', '[0x0a, 1]', '[2 m, 3 ft, 1 m]', "['b', 5]", '[1]']


def g_hist(tier):
    d = 3 if tier == 'quick' else 4
    for s in range(len(HSTART)):
        for h in itertools.product(range(len(HOPS)), repeat=d - 1):
            yield [s, list(h), len(HOPS)]


def c_hist(case, rec):
    s, pre, n = case
    for last in range(n):
        h = list(pre) + [last]
        run_hist(s, h, rec)


def run_hist(s, h, rec):
    c = C()
    calc.run(c, 'reset()')
    start = HSTART[s][1:-1].split(', ')
    calc.run(c, 'x_ = ' + HSTART[s])
    calc.run(c, "y_ = ['q']")
    m = {'x_': [scalar(e)[1:] for e in start], 'y_': [scalar("'q'")[1:]]}
    for i in h:
        op = HOPS[i]
        x = m['x_']
        fail = False
        if op == 'x_ = filter(x_, M)':
            op = op.replace('M', arr(['true' if k % 2 == 0 else 'false' for k in range(len(x))]))
        new = dict(m)
        if i == 0:
            new['x_'] = x[::-1]
        elif i == 1:
            new['x_'] = x + [scalar('9')[1:]]
        elif i == 2:
            new['x_'] = [scalar('0x0b')[1:], scalar('2 m')[1:]] + x
        elif i == 3:
            new['x_'] = x[::2]
        elif i == 4:
            new['x_'] = [x[0], x[-1]]
        elif i == 5:
            new['y_'] = x
        elif i == 6:
            new['x_'] = m['y_'] + x
        elif i == 7:
            new['y_'] = x[::-1]
        elif i == 8:
            k = [key(e) for e in x]
            if None in k or len({a[0] for a in k}) > 1:
                fail = True
            else:
                new['x_'] = [x[j] for j in sorted(range(len(x)), key=lambda j: k[j][1])]
        elif i == 9:
            fail = len(x) < 2
        elif i == 11:
            new['y_'] = [scalar(t)[1:] for t in ('1', '2', '3')]
        o = calc.run(c, op)
        rec.step()
        if fail:
            rec.check(o.err(), 'accepted', [HSTART[s], [HOPS[j] for j in h], op], o.obs(c) if o.ok() else repr(o.exc))
            new = m
        elif not rec.check(o.ok(), 'refused', [HSTART[s], [HOPS[j] for j in h], op], o.message):
            return
        m = new
        for v in ('x_', 'y_'):
            val = c.vars[v][0]
            got = [(calc.val_obs(e.value, c, True), calc.unit_obs(e.unit)) for e in val]
            if not rec.check(got == m[v], 'list after the history', [HSTART[s], [HOPS[j] for j in h], op, v, m[v]], got):
                return
        rec.state((tuple(map(repr, m['x_'])), tuple(map(repr, m['y_']))))
    rec.trace(1)


def key(e):
    if e[0][0] != 'n':
        return None
    v = F(e[0][1])
    if e[1] is None:
        return ('n', v)
    return ('d', v * {'meters': 1, 'feet': F('0.3048')}[e[1][0][0]])


SPACES = [Space('operators', g_ops, c_ops, 'every operator on arrays of all kinds of element: elementwise, scalars repeated, errors confined, lengths equal'),
          Space('functions', g_funcs, c_funcs, 'every scalar function on arrays in every argument position'),
          Space('ranges', g_ranges, c_ranges, 'every range over a grid of starts, ends, steps and units'),
          Space('lists', g_lists, c_lists, 'every list of up to 3 (4) elements under every list function'),
          Space('histories', g_hist, c_hist, 'every history of 3 (4) list operations on two variables')]
