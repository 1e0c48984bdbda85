"""C10 Arithmetic with units preserves the physical quantity.

Reference: exact rationals in SI with a dimension vector (mc/units.py); the value and unit the calculator gives together are
converted to that by the independent table and must be equal.
"""
from fractions import Fraction as F
import itertools

from mc.core import Space
from mc import calc, model, units
from mc.units import size_vec, size_of, SCALES, BYNAME
from mc.model import RefErr, Unmodelled

ASSUMPTIONS = ['a temperature is an interval in + - * / and inside a product of units, and a point on its scale when compared',
               'degrees use the calculator\'s own pi: results with angles are compared to 40 digits']

# text -> [(name, power)]
U = {
    '': [], 'm': [('m', 1)], 'ft': [('ft', 1)], 'km': [('km', 1)], 's': [('s', 1)], 'hours': [('hours', 1)], 'kg': [('kg', 1)], 'lb': [('lb', 1)], 'N': [('N', 1)],
    'J': [('J', 1)], 'kW': [('kW', 1)], 'm/s': [('m', 1), ('s', -1)], 'miles/hour': [('miles', 1), ('hours', -1)], 'knots': [('knots', 1)], 'm^2': [('m', 2)],
    'acres': [('acres', 1)], 'l': [('l', 1)], 's^-1': [('s', -1)], 'Hz': [('Hz', 1)], 'K': [('K', 1)], 'Celsius': [('Celsius', 1)], 'Fahrenheit': [('Fahrenheit', 1)],
    'deg': [('deg', 1)], 'rad': [('rad', 1)], 'kB': [('kB', 1)], 'V': [('V', 1)], 'A': [('A', 1)], 'kg m/s^2': [('kg', 1), ('m', 1), ('s', -2)],
    'ft lb': [('ft', 1), ('lb', 1)], 'm ft': [('m', 1), ('ft', 1)], 'm^3 s^-2': [('m', 3), ('s', -2)], 'mol': [('mol', 1)], 'Pa': [('Pa', 1)],
    'l/m': [('l', 1), ('m', -1)], 'J/Celsius': [('J', 1), ('Celsius', -1)], 'in': [('in', 1)], 'g': [('g', 1)], 'W s': [('W', 1), ('s', 1)],
    'kibibytes': [('kibibytes', 1)], 'weeks': [('weeks', 1)], 'F': [('F', 1)], 'Ω': [('Ω', 1)], 'lx': [('lx', 1)], 'Sv': [('Sv', 1)],
}
for _k in SCALES:
    units.BYSYMBOL.setdefault(_k, BYNAME[_k])
QUICK = ['', 'm', 'ft', 'km', 's', 'hours', 'kg', 'lb', 'N', 'J', 'm/s', 'knots', 'm^2', 'acres', 'l', 's^-1', 'Hz', 'K', 'Celsius', 'deg', 'rad', 'kB', 'V', 'A',
         'ft lb', 'm ft', 'J/Celsius', 'l/m']
VALS = [('3', F(3)), ('-2.5', F(-5, 2)), ('0', F(0)), ('(1/3)', F(1, 3)), ('70000000000000000000001', F(70000000000000000000001))]


def calcs():
    """one calculator with and one without unit simplification"""
    c = calc._cache.setdefault('c10on', None) or calc.new()
    d = calc._cache.setdefault('c10off', None) or calc.new()
    calc._cache['c10on'], calc._cache['c10off'] = c, d
    c.unit_simplification_set(True)
    d.unit_simplification_set(False)
    return (('on', c), ('off', d))


def q(v, u):
    s, vec = size_of(U[u])
    return v * s, vec


def point(v, u):
    if u in SCALES:
        off, sc = SCALES[u]
        return (v + off) * sc
    return v * size_of(U[u])[0]


def arith(op, a, b, ua, ub, va, vb):
    """reference: ('ok', si value, vec) / ('err',) / ('bool', v)"""
    (sa, da), (sb, db) = q(va, ua), q(vb, ub)
    if op in ('+', '-'):
        if da != db or (ua == '') != (ub == ''):
            return ('err',)
        return ('ok', sa + sb if op == '+' else sa - sb, da)
    if op == '*':
        return ('ok', sa * sb, tuple(x + y for x, y in zip(da, db)))
    if op == '/':
        if vb == 0:
            return ('err',)
        return ('ok', sa / sb, tuple(x - y for x, y in zip(da, db)))
    if op in ('%', '\\'):
        if ua != ub and ({ua, ub} & set(SCALES) or {ua, ub} == set(ANG)):
            return None          # remainder of points on different scales is not stated; that of angles depends on all digits of pi
        if da != db or (ua == '') != (ub == '') or vb == 0:
            return ('err',)
        if op == '%':
            return ('ok', model.binop('%', sa, sb), da)
        return ('ok', model.binop('\\', sa, sb), (0,) * len(da))
    if da != db or (ua == '') != (ub == ''):
        return ('err',)
    return ('bool', model.cmpop(op, point(va, ua), point(vb, ub)))


ANG = ('deg', 'rad')


def agree(got, want, text):
    if got == want:
        return True
    return any(w in text for w in ANG) and abs(got - want) <= (abs(want) or 1) * F(1, 10 ** 38)


def look(c, text, rec, want, tag, tol=None):
    """run text, compare with the reference"""
    if want is None:
        return True
    o = calc.run(c, text)
    rec.step()
    if o.kind == 'crash':
        return rec.bad('crash', [tag, text], repr(o.exc)[:200])
    if want[0] == 'err':
        return rec.check(o.err(), 'refused', [tag, text], o.obs(c, True) if o.ok() else None)
    if not o.ok():
        return rec.bad('error', [tag, text, str(want[1])], o.message)
    r = o.results[-1]
    if want[0] == 'bool':
        return rec.check(r.value is want[1], 'comparison', [tag, text, want[1]], calc.res_obs(r, c))
    try:
        n = calc.frac(r.value)
    except Exception:
        return rec.bad('not a number', [tag, text], calc.res_obs(r, c))
    s, v = size_vec(r.unit)
    if not rec.check(v == want[2], 'dimension', [tag, text, want[2]], [v, calc.unit_obs(r.unit)]):
        return False
    got = n * s
    ok = agree(got, want[1], text) if tol is None else abs(got - want[1]) <= abs(want[1]) * tol
    return rec.check(ok, 'quantity', [tag, text, str(want[1])], [str(got), calc.res_obs(r, c)])


OPS = ['+', '-', '*', '/', '%', '\\', '==', '!=', '<', '>', '<=', '>=']


def gen_pairs(tier):
    pool = QUICK if tier == 'quick' else list(U)
    vals = [(0, 1), (1, 0), (3, 4), (2, 1), (0, 2)] if tier == 'quick' else [(0, 1), (1, 0), (3, 4), (2, 1), (0, 2), (4, 3), (0, 0), (2, 2)]
    for a in pool:
        for b in pool:
            yield [a, b, vals]


def case_pairs(case, rec):
    ua, ub, vals = case
    for tag, c in calcs():
        for i, j in vals:
            (ta, va), (tb, vb) = VALS[i], VALS[j]
            for op in OPS:
                text = '(%s %s) %s (%s %s)' % (ta, ua, op, tb, ub)
                if not look(c, text, rec, arith(op, ta, tb, ua, ub, va, vb), tag):
                    return
                rec.trace()
    rec.state(case[:2])


def gen_powers(tier):
    for u in U:
        yield u


def case_powers(u, rec):
    for tag, c in calcs():
        for t, v in VALS:
            s, vec = q(v, u)
            for n in range(-4, 5):
                if v == 0 and n <= 0:
                    continue
                want = ('ok', s ** n, tuple(x * n for x in vec))
                # the result may need more digits than the calculator's size of 100
                tol = F(1, 10 ** 80) if len(t) > 20 and abs(n) > 2 else None
                if not look(c, '(%s %s)^%d' % (t, u, n), rec, want, tag, tol):
                    return
                if not look(c, '(%s %s)^(%d)' % (t, u, n), rec, want, tag, tol):
                    return
                rec.trace()
            if v > 0:
                for e, d in (('0.5', 2), ('(1/2)', 2), ('(-1/2)', -2)):
                    w = F((F(v) ** 2)) * size_of(U[u])[0] ** 2
                    text = '((%s %s)^2)^%s' % (t, u, e)
                    want = ('ok', v * size_of(U[u])[0] if d > 0 else 1 / (v * size_of(U[u])[0]), tuple(F(x) if d > 0 else -F(x) for x in vec))
                    look(c, text, rec, want, tag, F(1, 10 ** 20))
            if u:
                look(c, '2 ^ (%s %s)' % (t, u), rec, ('err',), tag)
    rec.state(u)


TRI = ['', 'm', 'ft', 's', 'kg', 'N', 'J', 'Hz', 'l', 'm/s', 'acres', 'K', 'V', 'hours']
TFORMS = ['a*b*c', 'a*b/c', 'a/b*c', 'a/b/c', 'a/(b*c)', 'a/(b/c)', 'a*(b/c)', '(a+a)*b/c', 'a*b*c - c*a*b', 'a*b^2/c', '(a/b)^2*c', 'a*b == b*a']


def gen_triples(tier):
    pool = TRI if tier == 'quick' else QUICK
    for t in itertools.product(pool, repeat=3):
        yield list(t)


def case_triples(case, rec):
    vs = [F(3), F(5, 2), F(7)]
    texts = ['(3 %s)' % case[0], '(2.5 %s)' % case[1], '(7 %s)' % case[2]]
    (a, da), (b, db), (c_, dc) = (q(v, u) for v, u in zip(vs, case))

    def v(x, y, z):
        return tuple(x * i + y * j + z * k for i, j, k in zip(da, db, dc))
    wants = [(a * b * c_, v(1, 1, 1)), (a * b / c_, v(1, 1, -1)), (a / b * c_, v(1, -1, 1)), (a / b / c_, v(1, -1, -1)), (a / b / c_, v(1, -1, -1)), (a / b * c_, v(1, -1, 1)),
             (a * b / c_, v(1, 1, -1)), (2 * a * b / c_, v(1, 1, -1)), (F(0), v(1, 1, 1)), (a * b * b / c_, v(1, 2, -1)), (a * a / b / b * c_, v(2, -2, 1)), None]
    for tag, c in calcs():
        for form, w in zip(TFORMS, wants):
            text = form
            for name, t in zip('abc', texts):
                text = text.replace(name, t) if name == 'a' else text.replace(name, t)
            # the names of units contain a, b, c: substitute through placeholders
            text = ''.join(texts['abc'.index(ch)] if ch in 'abc' else ch for ch in form)
            want = ('bool', True) if w is None else ('ok',) + w
            if not look(c, text, rec, want, tag):
                return
            rec.trace()
    rec.state(case)


# --- through variables, compound assignment, functions and arrays -------------------------------------------------

def gen_routes(tier):
    pool = QUICK[1:] if tier == 'quick' else list(U)[1:]
    for a in pool:
        for b in ('m', 'ft', 's', 'kg', 'J', 'Celsius', a):
            yield [a, b]


def case_routes(case, rec):
    ua, ub = case
    va, vb = F(3), F(-5, 2)
    for tag, c in calcs():
        for op in '+-*/':
            want = arith(op, '3', '-2.5', ua, ub, va, vb)
            pre = 'x_ = 3 %s\ny_ = -2.5 %s\n' % (ua, ub)
            for text in (pre + 'x_ %s y_' % op, pre + 'x_ %s= y_' % op, pre + 'f_ = {PARAM1 %s PARAM2}\n@f_(x_, y_)' % op, pre + 'true then x_ %s y_ else 0' % op,
                         pre + 'element([1, x_ %s y_], 2)' % op, pre + 'z_ = (w_ = x_) %s y_\nz_' % op, pre + 'x_ %s (y_)\nx_ %s y_' % (op, op)):
                calc.run(c, 'reset()')
                if not look(c, text, rec, want, tag):
                    return
            rec.trace()
            # as an array
            calc.run(c, 'reset()')
            o = calc.run(c, pre + '[x_, x_] %s y_' % op)
            rec.step()
            if want[0] == 'ok' and o.ok():
                for el in o.results[-1].value:
                    if isinstance(el.value, Exception):
                        rec.bad('element', [tag, op, ua, ub], str(el.value))
                        break
                    s, v = size_vec(el.unit)
                    rec.check(v == want[2] and agree(calc.frac(el.value) * s, want[1], ua + ub), 'array element', [tag, op, ua, ub, str(want[1])], calc.res_obs(el, c))
            # operands are unchanged
            o = calc.run(c, '[x_, y_]')
            if o.ok():
                got = [(calc.frac(e.value), calc.unit_obs(e.unit)) for e in o.results[-1].value]
                o2 = calc.run(c, pre + '[x_, y_]')
                want2 = [(calc.frac(e.value), calc.unit_obs(e.unit)) for e in o2.results[-1].value]
                rec.check(got == want2, 'operands unchanged', [tag, op, ua, ub, want2], got)
        for fn, w in (('sum', lambda a, b: a + b), ('max', max), ('min', min), ('mean', lambda a, b: (a + b) / 2)):
            (sa, da), (sb, db) = q(va, ua), q(vb, ub)
            if 'Celsius' in case or 'Fahrenheit' in case or 'J/Celsius' in case:
                continue
            want = ('ok', w(sa, sb), da) if da == db else ('err',)
            look(c, '%s(3 %s, -2.5 %s)' % (fn, ua, ub), rec, want, tag)
        look(c, 'abs(-2.5 %s)' % ub, rec, ('ok', F(5, 2) * size_of(U[ub])[0], size_of(U[ub])[1]), tag)
    rec.state(case)


# --- units multiplied and divided as such -------------------------------------------------------------------------

def gen_unitexpr(tier):
    names = ['m', 'ft', 's', 'kg', 'N', 'J', 'Hz', 'l', 'hours', 'K']
    n = 3
    for k in range(1, n + 1):
        for t in itertools.product(names[:10 if k < 3 else 5 if tier == 'quick' else 7], repeat=k):
            for ps in itertools.product((1, -1, 2), repeat=k):
                yield [list(t), list(ps)]


def case_unitexpr(case, rec):
    names, ps = case
    pairs = list(zip(names, ps))
    s, v = size_of(pairs)
    texts = [' '.join(n if p == 1 else '%s^%d' % (n, p) for n, p in pairs), '*'.join('(1 %s)' % (n if p == 1 else '%s^%d' % (n, p)) for n, p in pairs)]
    if any(p < 0 for p in ps) and any(p > 0 for p in ps):
        pos = ' '.join(n if p == 1 else '%s^%d' % (n, p) for n, p in pairs if p > 0)
        neg = ' '.join(n if p == -1 else '%s^%d' % (n, -p) for n, p in pairs if p < 0)
        texts.append('%s/(%s)' % (pos, neg))
        texts.append('%s / (1 %s)' % (pos, neg))
    for tag, c in calcs():
        for t in texts:
            if '*' in t:
                look(c, '3 * ' + t, rec, ('ok', 3 * s, v), tag)
            else:
                look(c, '3 ' + t, rec, ('ok', 3 * s, v), tag)
                look(c, '3 * (2 %s)' % t, rec, ('ok', 6 * s, v), tag)
            rec.trace()
    rec.state((s, v))


SPACES = [
    Space('pairs', gen_pairs, case_pairs, 'all pairs of units x values x operators, with and without simplification'),
    Space('powers', gen_powers, case_powers, 'integer and square-root powers of every unit of the pool'),
    Space('triples', gen_triples, case_triples, 'all triples of units in 12 forms'),
    Space('routes', gen_routes, case_routes, 'the same through variables, compound assignment, functions, conditionals and arrays'),
    Space('unitexpr', gen_unitexpr, case_unitexpr, 'all products of up to three unit powers written as a unit'),
]
