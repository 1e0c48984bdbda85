"""C21 Trigonometric and special functions satisfy their defining relations.

Reference for trigonometric and hyperbolic functions: series in the decimal module at 60 digits.  Special functions: their
defining relations and special values (both sides evaluated by the calculator), and the scipy function of the same name.
"""
from decimal import Decimal as D, Context, ROUND_HALF_EVEN
from fractions import Fraction as F
import itertools
import math
import re
import warnings

from mc.core import Space
from mc import calc

ASSUMPTIONS = ['functions are computed in double precision: errors of a few units in the last place of the angle and the result are allowed',
               'the tangent next to a pole may be anything huge, or an error', 'units other than angles are not specified', 'scipy computes the special functions that it documents']
CTX = Context(prec=70, rounding=ROUND_HALF_EVEN, Emax=10 ** 6, Emin=-10 ** 6)
EPS = D(2) ** -50


def frd(f):
    return CTX.divide(D(f.numerator), D(f.denominator))


def _atan_inv(n):
    t, s, k = CTX.divide(D(1), D(n)), D(0), 0
    while abs(t) > D(10) ** -75:
        s = CTX.add(s, CTX.divide(t if k % 2 == 0 else -t, D(2 * k + 1)))
        t = CTX.divide(t, D(n * n))
        k += 1
    return s


PI = CTX.multiply(D(4), CTX.subtract(CTX.multiply(D(4), _atan_inv(5)), _atan_inv(239)))


def sincos(x):
    """sine and cosine of a Decimal"""
    x = CTX.remainder(x, CTX.multiply(D(2), PI))
    n = 4
    y = CTX.divide(x, D(2 ** n))
    s, c, t, k = D(0), D(0), D(1), 0
    while abs(t) > D(10) ** -68 or k < 4:
        if k % 2 == 0:
            c = CTX.add(c, t if k % 4 == 0 else -t)
        else:
            s = CTX.add(s, t if k % 4 == 1 else -t)
        k += 1
        t = CTX.divide(CTX.multiply(t, y), D(k))
    for _ in range(n):
        s, c = CTX.multiply(D(2), CTX.multiply(s, c)), CTX.subtract(CTX.multiply(c, c), CTX.multiply(s, s))
    return s, c


def ex(x):
    return CTX.exp(x)


def fexp(x):
    return ex(frd(x))


# ------------------------------------------------------------------ evaluation

def ev(text, c=None, **flags):
    """('num', Fraction, unit) | ('err', message) | ('crash', ..)"""
    o = calc.run(c or calc.shared(), text, **flags)
    if o.kind == 'crash':
        return ('crash', repr(o.exc))
    if o.err():
        return ('err',)
    r = o.last()
    try:
        return ('num', calc.frac(r.value), calc.unit_obs(r.unit))
    except Exception:
        return ('other', repr(r.value))


def near(got, want, tol):
    return abs(CTX.subtract(frd(got), want)) <= tol


# ------------------------------------------------------------------ angles

def angle_values(tier):
    """(text, unit, radians as Decimal)"""
    step = 15 if tier == 'quick' else 5
    degs = sorted(set(range(-720, 721, step)) | {1, 10, 89, 91, 179, 181, 359, 361, 1000000, -1000001, 36000000090})
    for k in degs:
        yield [str(k), 'degrees', None]
    for t in ('0.5', '22.5', '0.001', '89.999', '-0.25', '1.5E-9', '1E9', '0.1'):
        yield [t, 'degrees', None]
    for t in ('0', '1', '-1', '2', '3', '0.1', '-0.1', '0.5', '1.5', '-2.5', '3.14159', '6.28', '7', '-22', '100', '12345.678', '1E-9', '-1E-5', '1E8', '1.5707963'):
        yield [t, 'radians', None]
        yield [t, '', None]
    for k in range(-24, 25):
        yield ['(%d / 12 * pi)' % k, '', k]
        yield ['(%d / 12 * pi)' % k, 'radians', k]


def gen_angles(tier):
    for v in angle_values(tier):
        yield v


def radians(text, unit, k):
    if k is not None:
        return CTX.divide(CTX.multiply(PI, D(k)), D(12))
    v = D(text)
    return CTX.divide(CTX.multiply(v, PI), D(180)) if unit == 'degrees' else v


def expected(fn, rad):
    s, c = sincos(rad)
    tol = EPS * (2 + abs(rad))
    if fn == 'sin':
        return s, tol
    if fn == 'cos':
        return c, tol
    if abs(c) < tol * 1000:
        return None, None
    t = CTX.divide(s, c)
    return t, tol * (1 + t * t) * 2


def form_texts(text, unit):
    """(setup statements, angle expression) of several ways to hand over the same angle"""
    a = '%s %s' % (text, unit) if unit else text
    out = [([], a), (['x_ = %s' % a], 'x_'), ([], '(%s)' % a), (['a_ = [%s]' % a], 'element(a_, 1)'), (['f_ = {PARAM1}'], '@f_(%s)' % a), ([], 'true then %s else 0' % a)]
    if unit == 'degrees':
        out += [([], '(%s to radians)' % a), ([], '(%s + 0 radians)' % a), ([], '(%s + 1 radian - 1 radian)' % a), ([], '(%s * 3 m / 3 m)' % a), ([], '(%s deg)' % text), ([], '(%s / 2 * 2)' % a), ([], '(%s) * 1000 m / 1 km' % a),
                ([], '(%s / 1 s * 1 s)' % a), ([], '((%s) ^ 2 / 1 degree / %s)' % (a, text) if text.lstrip('-') != '0' else a)]
        if text.isdigit():
            out += [([], '0x%X degrees' % int(text)), ([], '0b%s degrees' % bin(int(text))[2:])]
    if unit == 'radians':
        out += [([], '(%s to degrees)' % a), ([], '(%s + 0 degrees)' % a), ([], '%s rad' % text)]
    if not unit:
        out += [([], '(%s radians / 1 radian)' % text)]
    return out


def case_angles(case, rec):
    text, unit, k = case
    rad = radians(text, unit, k)
    c = calc.shared()
    for setup, a in form_texts(text, unit):
        calc.run(c, 'reset()')
        for s in setup:
            o = calc.run(c, s)
            if not rec.check(o.ok(), 'set up %r' % s, 'no error', o.message):
                return
        for fn in ('sin', 'cos', 'tan'):
            want, tol = expected(fn, rad)
            for expr in ('%s(%s)' % (fn, a), 'f2_ = {%s(PARAM1)}\n@f2_(%s)' % (fn, a)):
                got = ev(expr, c)
                rec.step()
                if want is None:
                    rec.check(got[0] == 'err' or (got[0] == 'num' and abs(got[1]) > 10 ** 5), '%s next to a pole' % expr, 'huge or an error', got)
                    continue
                if not rec.check(got[0] == 'num' and near(got[1], want, tol), '%s with %s' % (expr, setup), '%.20f' % want, got if got[0] != 'num' else float(got[1])):
                    return
                rec.check(not got[2], 'unit of %s with %s' % (expr, setup), None, got[2])
                rec.state((fn, got[1]))
        got = ev('(sin(%s) ^ 2) + (cos(%s) ^ 2)' % (a, a), c)
        rec.step()
        rec.check(got[0] == 'num' and abs(got[1] - 1) < F(1, 10 ** 12) and not got[2], 'sine and cosine of %s lie on the unit circle' % a, 1, got)
    rec.trace()


# pairs of angles in different units: sums, periods, symmetry, in one array

def gen_pairs(tier):
    degs = range(-360, 361, 30 if tier == 'quick' else 10)
    rads = ['0', '1', '-1', '0.5', '2', '-3', '10', '0.001']
    for d in degs:
        for r in rads:
            yield [d, r]


def case_pairs(case, rec):
    d, r = case
    a, b = radians(str(d), 'degrees', None), D(r)
    for expr_a, rad in (('%d degrees + %s radians' % (d, r), a + b), ('%s radians - %d degrees' % (r, d), b - a), ('%s rad + %d deg' % (r, d), a + b), ('%s - 1 * %d degrees / 1 radian' % (r, d), b - a)):
        for fn in ('sin', 'cos', 'tan'):
            want, tol = expected(fn, rad)
            got = ev('%s(%s)' % (fn, expr_a))
            rec.step()
            if want is None:
                continue
            rec.check(got[0] == 'num' and near(got[1], want, tol * 2) and not got[2], '%s(%s)' % (fn, expr_a), '%.20f' % want, got)
    for fn, sign in (('sin', -1), ('cos', 1), ('tan', -1)):
        want, tol = expected(fn, a)
        if want is None:
            continue
        for period in (360, 720, -360, 3600):
            got = ev('%s(%d degrees)' % (fn, d + period))
            rec.step()
            rec.check(got[0] == 'num' and near(got[1], want, tol * 30), '%s of %d degrees and a full turn of %d' % (fn, d, period), '%.20f' % want, got)
        neg = ev('%s(%d degrees)' % (fn, -d))
        rec.step()
        rec.check(neg[0] == 'num' and near(neg[1], want * sign, tol), '%s is %s at %d degrees' % (fn, 'odd' if sign < 0 else 'even', d), '%.20f' % (want * sign), neg)
        # an array of angles in different units, and of plain numbers
        o = calc.run(calc.shared(), '%s([%d degrees, %s radians, %s, %d degrees])' % (fn, d, r, r, -d))
        rec.step()
        wants = [want, expected(fn, b)[0], expected(fn, b)[0], want * sign]
        tols = [tol, expected(fn, b)[1], expected(fn, b)[1], tol]
        ok = o.ok() and len(o.last().value) == 4
        if ok:
            for e, w, t in zip(o.last().value, wants, tols):
                if w is not None:
                    ok = ok and near(calc.frac(e.value), w, t) and not e.unit
        rec.check(ok, '%s of the array [%d degrees, %s radians, %s, %d degrees]' % (fn, d, r, r, -d), ['%.12f' % w for w in wants if w is not None], o.obs(calc.shared(), True))
    rec.trace()


# ------------------------------------------------------------------ inverse and hyperbolic functions

def gen_inverse(tier):
    n = 20 if tier == 'quick' else 200
    for k in range(-n, n + 1):
        yield ['unit', k, n]
    for k in range(-30, 31) if tier == 'quick' else range(-300, 301):
        yield ['real', k, 10 if tier == 'quick' else 100]
    for t in ('1.0000001', '-1.0000001', '2', '-3', '1E10', '1E200', '1E400', '-1E400', '1E-300', '1E-400', '100', '709', '711', '-711', '1000'):
        yield ['edge', t, 0]


def dasinh(x):
    s = CTX.sqrt(CTX.add(CTX.multiply(x, x), D(1)))
    return CTX.ln(CTX.add(abs(x), s)).copy_sign(x)


def case_inverse(case, rec):
    kind, k, n = case
    if kind == 'unit':
        x = F(k, n)
        t = '(%d / %d)' % (k, n)
        for fn in ('asin', 'acos', 'atan'):
            got = ev('%s(%s)' % (fn, t))
            rec.step()
            if not rec.check(got[0] == 'num' and not got[2], '%s(%s)' % (fn, t), 'a number', got):
                continue
            s, c = sincos(frd(got[1]))
            v = frd(got[1])
            rec.state((fn, got[1]))
            if fn == 'asin':
                good = abs(v) <= PI / 2 + EPS and abs(s - frd(x)) < EPS * 2
            elif fn == 'acos':
                good = -EPS <= v <= PI + EPS and abs(c - frd(x)) < EPS * 2
            else:
                good = abs(v) < PI / 2 and abs(s - frd(x) * c) < EPS * 2
            rec.check(good, '%s undoes its function on the principal range at %s' % (fn, t), (fn, str(x)), float(got[1]))
        for expr in ('sin(asin(%s))', 'cos(acos(%s))', 'tan(atan(%s))', 'sin(asin(%s) radians)', 'cos(acos(%s) * 1 radian to degrees)', 'tan(atan(%s) radians)'):
            got = ev(expr % t)
            rec.step()
            rec.check(got[0] == 'num' and abs(got[1] - x) < F(1, 10 ** 14) and not got[2], expr % t, str(x), got)
        # principal angles come back
        for fn, inv, lo in (('sin', 'asin', F(-1, 2)), ('tan', 'atan', F(-1, 2)), ('cos', 'acos', F(0))):
            turn = lo + (x + 1) / 2                      # in half turns, over the principal range
            if fn != 'cos' and abs(turn) == F(1, 2):
                continue
            got = ev('%s(%s((%d / %d) * 180 degrees)) * 180 / pi' % (inv, fn, turn.numerator, turn.denominator))
            rec.step()
            rec.check(got[0] == 'num' and abs(got[1] - turn * 180) < F(1, 10 ** 5), '%s(%s()) of %s degrees' % (inv, fn, turn * 180), str(turn * 180), got)
        return
    if kind == 'real':
        x = F(k, n)
        t = '(%d / %d)' % (k, n)
        e, i = fexp(x), fexp(-x)
        sh, ch = (e - i) / 2, (e + i) / 2
        th = CTX.divide(sh, ch)
        wants = [('sinh', sh), ('cosh', ch), ('tanh', th), ('asinh', dasinh(frd(x)))]
        if x >= 1:
            wants.append(('acosh', CTX.ln(CTX.add(frd(x), CTX.sqrt(frd(x) ** 2 - 1)))))
        if abs(x) < 1:
            wants.append(('atanh', CTX.ln(CTX.divide(frd(1 + x), frd(1 - x))) / 2))
        for fn, want in wants:
            got = ev('%s(%s)' % (fn, t))
            rec.step()
            rec.check(got[0] == 'num' and near(got[1], want, EPS * (1 + abs(want))), '%s(%s)' % (fn, t), '%.20f' % want, got)
            if got[0] == 'num':
                rec.state((fn, got[1]))
        refused = (['acosh'] if x < 1 else []) + (['atanh', 'asin', 'acos'] if abs(x) > 1 else []) + (['atanh'] if abs(x) == 1 else [])
        for fn in refused:
            got = ev('%s(%s)' % (fn, t))
            rec.step()
            rec.check(got == ('err',), '%s(%s) is refused' % (fn, t), 'an error', got)
        for expr in ['asinh(sinh(%s))', 'sinh(asinh(%s))'] + (['acosh(cosh(%s))', 'cosh(acosh(%s))'] if x >= 1 else []) + (['tanh(atanh(%s))'] if abs(x) < 1 else []) + ['atanh(tanh(%s))'] * (abs(x) < 2) + ['log(exp(%s))'] + ['exp(log(%s))'] * (x > 0):
            got = ev(expr % t)
            rec.step()
            rec.check(got[0] == 'num' and abs(got[1] - x) < F(1, 10 ** 12) * (1 + abs(x)), expr % t, str(x), got)
        got = ev('((cosh(%s) ^ 2) - (sinh(%s) ^ 2)) / (cosh(%s) ^ 2)' % (t, t, t))
        rec.step()
        rec.check(got[0] == 'num' and abs(got[1] - 1 / F(ch) ** 2) < F(1, 10 ** 12), 'cosh^2 - sinh^2 at %s' % t, 1, got)
        return
    x = D(k)
    for fn, ok in (('asin', abs(x) <= 1), ('acos', abs(x) <= 1), ('atan', True), ('acosh', x >= 1), ('atanh', abs(x) < 1), ('asinh', True), ('sinh', abs(x) < 710), ('cosh', abs(x) < 710), ('tanh', True), ('sin', True), ('cos', True), ('tan', True)):
        got = ev('%s(%s)' % (fn, k))
        rec.step()
        if not ok:
            rec.check(got == ('err',), '%s(%s) is refused' % (fn, k), 'an error', got)
        elif abs(x) > 10 ** 300:
            rec.check(got[0] in ('num', 'err'), '%s(%s)' % (fn, k), 'a number or an error', got)
        else:
            rec.check(got[0] == 'num', '%s(%s)' % (fn, k), 'a number', got)


# ------------------------------------------------------------------ relations of special functions

R = ['0.5', '1', '1.5', '2', '3.25', '7']                      # positive reals
Q = ['0.1', '0.25', '0.5', '0.75', '0.9']                      # between 0 and 1
N = ['1', '2', '3', '5']
Z = ['-2', '-0.5', '0', '0.5', '2', '3.5']
ORD = ['0', '1', '2', '0.5', '1.5', '-0.5']
# relation, domains of x, y, z, w
RELATIONS = [
    ('sp_gamma({0} + 1)', '{0} * sp_gamma({0})', [R]), ('sp_gamma({0} + 1)', '{0} * sp_gamma({0})', [['-0.5', '-1.5', '-2.25', '0.1']]), ('sp_gamma({0} + 1)', 'fact({0})', [['0', '1', '2', '3', '5', '10', '15']]),
    ('sp_gamma(0.5) ^ 2', 'pi', []), ('sp_gamma({0}) * sp_gamma(1 - {0})', 'pi / sin(pi * {0})', [Q]), ('exp(sp_gammaln({0}))', 'sp_gamma({0})', [R]), ('exp(sp_loggamma({0}))', 'sp_gamma({0})', [R]), ('sp_rgamma({0}) * sp_gamma({0})', '1', [R + ['-0.5', '-1.5']]),
    ('sp_gammasgn({0})', '1', [R + ['-1.5']]), ('sp_gammasgn({0})', '-1', [['-0.5', '-2.5']]), ('sp_gammainc({0}, {1}) + sp_gammaincc({0}, {1})', '1', [R, R]), ('sp_gammainc(1, {0})', '1 - exp(0 - {0})', [R]),
    ('sp_gammaincinv({0}, sp_gammainc({0}, {1}))', '{1}', [R, ['0.5', '1', '1.5', '2']]), ('sp_gammainccinv({0}, sp_gammaincc({0}, {1}))', '{1}', [R, ['0.5', '1', '1.5', '2']]), ('sp_gammainc({0} + 1, {1})', 'sp_gammainc({0}, {1}) - ({1} ^ {0}) * exp(0 - {1}) / sp_gamma({0} + 1)', [R, R]),
    ('sp_beta({0}, {1})', 'sp_gamma({0}) * sp_gamma({1}) / sp_gamma({0} + {1})', [R, R]), ('exp(sp_betaln({0}, {1}))', 'sp_beta({0}, {1})', [R, R]), ('sp_betainc({0}, {1}, {2})', '1 - sp_betainc({1}, {0}, 1 - {2})', [R, R, Q]),
    ('sp_betaincc({0}, {1}, {2})', '1 - sp_betainc({0}, {1}, {2})', [R, R, Q]), ('sp_betainc({0}, {1}, sp_betaincinv({0}, {1}, {2}))', '{2}', [R, R, Q]), ('sp_betaincc({0}, {1}, sp_betainccinv({0}, {1}, {2}))', '{2}', [R, R, Q]), ('sp_betainc({0}, 1, {1})', '{1} ^ {0}', [R, Q]),
    ('sp_psi({0} + 1)', 'sp_psi({0}) + 1 / {0}', [R]), ('sp_digamma({0})', 'sp_psi({0})', [R]), ('sp_polygamma(0, {0})', 'sp_psi({0})', [R]), ('sp_polygamma(1, {0} + 1)', 'sp_polygamma(1, {0}) - 1 / {0} ^ 2', [R]), ('sp_polygamma(1, 1)', 'pi ^ 2 / 6', []),
    ('sp_poch({0}, {1})', 'sp_gamma({0} + {1}) / sp_gamma({0})', [R, R]),
    ('sp_airy_ai({0}) * sp_airy_bip({0}) - sp_airy_aip({0}) * sp_airy_bi({0})', '1 / pi', [Z]), ('sp_airye_eai({0})', 'sp_airy_ai({0}) * exp((2 / 3) * {0} ^ 1.5)', [R]), ('sp_airye_eaip({0})', 'sp_airy_aip({0}) * exp((2 / 3) * {0} ^ 1.5)', [R]),
    ('sp_airye_ebi({0})', 'sp_airy_bi({0}) / exp((2 / 3) * {0} ^ 1.5)', [R]), ('sp_airye_ebip({0})', 'sp_airy_bip({0}) / exp((2 / 3) * {0} ^ 1.5)', [R]), ('sp_airy_bi(0) / sp_airy_ai(0)', '3 ^ 0.5', []), ('sp_airy_bip(0) / sp_airy_aip(0)', '0 - 3 ^ 0.5', []),
    ('sp_itairy_apt(0)', '0', []),
    ('sp_ellipk(0)', 'pi / 2', []), ('sp_ellipe(0)', 'pi / 2', []), ('sp_ellipe(1)', '1', []), ('sp_ellipkm1({0})', 'sp_ellipk(1 - {0})', [Q]), ('sp_ellipe({0}) * sp_ellipk(1 - {0}) + sp_ellipe(1 - {0}) * sp_ellipk({0}) - sp_ellipk({0}) * sp_ellipk(1 - {0})', 'pi / 2', [Q]),
    ('sp_ellipkinc(pi / 2, {0})', 'sp_ellipk({0})', [Q]), ('sp_ellipeinc(pi / 2, {0})', 'sp_ellipe({0})', [Q]), ('sp_ellipkinc({0}, 0)', '{0}', [Q]), ('sp_ellipeinc({0}, 0)', '{0}', [Q]), ('sp_ellipj_sn({0}, {1}) ^ 2 + sp_ellipj_cn({0}, {1}) ^ 2', '1', [R, Q]),
    ('sp_ellipj_dn({0}, {1}) ^ 2 + {1} * sp_ellipj_sn({0}, {1}) ^ 2', '1', [R, Q]), ('sp_ellipj_sn({0}, {1})', 'sin(sp_ellipj_ph({0}, {1}))', [R, Q]), ('sp_ellipkinc(sp_ellipj_ph({0}, {1}), {1})', '{0}', [['0.1', '0.5', '1'], Q]), ('sp_ellipj_cn({0}, 0)', 'cos({0})', [R]),
    ('sp_elliprf({0}, {0}, {0})', '1 / {0} ^ 0.5', [R]), ('sp_elliprc({0}, {0})', '1 / {0} ^ 0.5', [R]), ('sp_elliprd({0}, {0}, {0})', '1 / {0} ^ 1.5', [R]), ('sp_elliprj({0}, {0}, {0}, {0})', '1 / {0} ^ 1.5', [R]), ('sp_elliprg({0}, {0}, {0})', '{0} ^ 0.5', [R]),
    ('sp_elliprf(0, 1 - {0}, 1)', 'sp_ellipk({0})', [Q]), ('sp_elliprc({0}, {1})', 'sp_elliprf({0}, {1}, {1})', [R, R]), ('sp_elliprd({0}, {1}, {2})', 'sp_elliprj({0}, {1}, {2}, {2})', [R, R, R]), ('2 * sp_elliprg(0, 1 - {0}, 1)', 'sp_ellipe({0})', [Q]),
    ('sp_jv({0} - 1, {1}) + sp_jv({0} + 1, {1})', '2 * {0} / {1} * sp_jv({0}, {1})', [ORD, R]), ('sp_yv({0} - 1, {1}) + sp_yv({0} + 1, {1})', '2 * {0} / {1} * sp_yv({0}, {1})', [ORD, R]), ('sp_iv({0} - 1, {1}) - sp_iv({0} + 1, {1})', '2 * {0} / {1} * sp_iv({0}, {1})', [ORD, R]),
    ('sp_kv({0} + 1, {1}) - sp_kv({0} - 1, {1})', '2 * {0} / {1} * sp_kv({0}, {1})', [ORD, R]), ('sp_kn({0}, {1})', 'sp_kv({0}, {1})', [['0', '1', '2', '5'], R]), ('sp_yn({0}, {1})', 'sp_yv({0}, {1})', [['0', '1', '2', '5'], R]), ('sp_jve({0}, {1})', 'sp_jv({0}, {1})', [ORD, R]), ('sp_yve({0}, {1})', 'sp_yv({0}, {1})', [ORD, R]),
    ('sp_ive({0}, {1})', 'sp_iv({0}, {1}) * exp(0 - {1})', [ORD, R]), ('sp_kve({0}, {1})', 'sp_kv({0}, {1}) * exp({1})', [ORD, R]), ('sp_hankel1({0}, {1})', 'sp_jv({0}, {1})', [ORD, R]), ('sp_hankel2({0}, {1})', 'sp_jv({0}, {1})', [ORD, R]),
    ('sp_hankel1e({0}, {1})', 'sp_jv({0}, {1}) * cos({1}) + sp_yv({0}, {1}) * sin({1})', [ORD, R]), ('sp_hankel2e({0}, {1})', 'sp_jv({0}, {1}) * cos({1}) + sp_yv({0}, {1}) * sin({1})', [ORD, R]),
    ('sp_jv({0} + 1, {1}) * sp_yv({0}, {1}) - sp_jv({0}, {1}) * sp_yv({0} + 1, {1})', '2 / (pi * {1})', [ORD, R]), ('sp_jvp({0}, {1})', '(sp_jv({0} - 1, {1}) - sp_jv({0} + 1, {1})) / 2', [ORD, R]), ('sp_yvp({0}, {1})', '(sp_yv({0} - 1, {1}) - sp_yv({0} + 1, {1})) / 2', [ORD, R]),
    ('sp_ivp({0}, {1})', '(sp_iv({0} - 1, {1}) + sp_iv({0} + 1, {1})) / 2', [ORD, R]), ('sp_h1vp({0}, {1})', 'sp_jvp({0}, {1})', [ORD, R]), ('sp_h2vp({0}, {1})', 'sp_jvp({0}, {1})', [ORD, R]), ('sp_iv({0}, {1})', '({1} / 2) ^ {0} * sp_wright_bessel(1, {0} + 1, {1} ^ 2 / 4)', [['0', '1', '2', '0.5'], R]), ('sp_jv(0.5, {0})', '(2 / (pi * {0})) ^ 0.5 * sin({0})', [R]),
    ('sp_bdtrc(0, {0}, {1})', '1 - (1 - {1}) ^ {0}', [N, Q]), ('1 - sp_bdtrc({0}, 5, sp_bdtri({0}, 5, {1}))', '{1}', [['0', '1', '3'], Q]), ('sp_bdtrc({0}, 5, {1})', 'sp_betainc({0} + 1, 5 - {0}, {1})', [['0', '1', '3'], Q]),
    ('sp_fdtr({0}, {1}, {2}) + sp_fdtrc({0}, {1}, {2})', '1', [N, N, R]), ('sp_fdtri({0}, {1}, sp_fdtr({0}, {1}, {2}))', '{2}', [N, N, ['0.5', '1', '2']]), ('sp_gdtr({0}, {1}, {2}) + sp_gdtrc({0}, {1}, {2})', '1', [R, R, R]), ('sp_gdtr({0}, {1}, {2})', 'sp_gammainc({1}, {0} * {2})', [R, R, R]),
    ('sp_gdtr({0}, {1}, sp_gdtrix({0}, {1}, {2}))', '{2}', [R, R, Q]), ('sp_gdtr(sp_gdtria({2}, {1}, {0}), {1}, {0})', '{2}', [R, R, Q]), ('sp_gdtr({0}, sp_gdtrib({0}, {2}, {1}), {1})', '{2}', [['0.5', '1', '2'], ['1', '2', '3.25'], ['0.25', '0.5', '0.75']]),
    ('sp_nbdtr({0}, {1}, {2}) + sp_nbdtrc({0}, {1}, {2})', '1', [['0', '1', '2', '5'], N, Q]), ('sp_nbdtr({0}, {1}, sp_nbdtri({0}, {1}, {2}))', '{2}', [['0', '1', '2', '5'], N, Q]), ('sp_nbdtr(0, {0}, {1})', '{1} ^ {0}', [N, Q]),
    ('sp_ndtr({0}) + sp_ndtr(0 - {0})', '1', [Z]), ('sp_ndtri(sp_ndtr({0}))', '{0}', [Z]), ('exp(sp_log_ndtr({0}))', 'sp_ndtr({0})', [Z]), ('sp_ndtri_exp(log({0}))', 'sp_ndtri({0})', [Q]), ('sp_ndtr(({1} - sp_nrdtrimn<p: {0}, x: {1}, std: {2}>) / {2})', '{0}', [Q, Z, R]), ('sp_ndtr(({1} - {2}) / sp_nrdtrisd<p: {0}, x: {1}, mn: {2}>)', '{0}', [['0.75', '0.9'], ['3.5', '2'], ['0', '1']]),
    ('sp_ndtr(0)', '0.5', []),
    ('sp_pdtr({0}, {1}) + sp_pdtrc({0}, {1})', '1', [['0', '1', '2', '5'], R]), ('sp_pdtr({0}, sp_pdtri({0}, {1}))', '{1}', [['0', '1', '2', '5'], Q]), ('sp_pdtr(0, {0})', 'exp(0 - {0})', [R]), ('sp_stdtr({0}, {1}) + sp_stdtr({0}, 0 - {1})', '1', [N, Z]), ('sp_stdtr({0}, sp_stdtrit({0}, {1}))', '{1}', [N, Q]), ('sp_stdtr(1, {0})', '0.5 + atan({0}) / pi', [Z]),
    ('sp_stdtr(sp_stdtridf({0}, {1}), {1})', '{0}', [['0.7', '0.75'], ['1', '1.5']]), ('sp_chdtr({0}, {1}) + sp_chdtrc({0}, {1})', '1', [R, R]), ('sp_chdtrc({0}, sp_chdtri({0}, {1}))', '{1}', [R, Q]), ('sp_chdtr({0}, {1})', 'sp_gammainc({0} / 2, {1} / 2)', [R, R]), ('sp_chdtr(sp_chdtriv({0}, {1}), {1})', '{0}', [Q, ['1', '2', '3.25']]),
    ('sp_chndtr({0}, {1}, 0)', 'sp_chdtr({1}, {0})', [R, R]), ('sp_chndtr(sp_chndtrix({0}, {1}, {2}), {1}, {2})', '{0}', [Q, N, ['0.5', '1']]), ('sp_nctdtr({0}, 0, {1})', 'sp_stdtr({0}, {1})', [N, ['0.5', '1', '2']]), ('sp_ncfdtr({0}, {1}, 0, {2})', 'sp_fdtr({0}, {1}, {2})', [N, N, R]),
    ('sp_nctdtr({0}, 1, sp_nctdtrit({0}, 1, {1}))', '{1}', [N, Q]), ('sp_ncfdtr({0}, {1}, 1, sp_ncfdtri({0}, {1}, 1, {2}))', '{2}', [N, N, Q]),
    ('sp_smirnov({0}, sp_smirnovi({0}, {1}))', '{1}', [N, Q]), ('sp_smirnov(1, {0})', '1 - {0}', [Q]), ('sp_kolmogorov(sp_kolmogi({0}))', '{0}', [Q]), ('sp_boxcox({0}, {1})', '({0} ^ {1} - 1) / {1}', [R, R]), ('sp_boxcox({0}, 0)', 'log({0})', [R]), ('sp_boxcox1p({0}, {1})', 'sp_boxcox(1 + {0}, {1})', [R, R]),
    ('sp_inv_boxcox(sp_boxcox({0}, {1}), {1})', '{0}', [R, R]), ('sp_inv_boxcox1p(sp_boxcox1p({0}, {1}), {1})', '{0}', [R, R]), ('sp_logit(sp_expit({0}))', '{0}', [Z]), ('sp_expit({0})', '1 / (1 + exp(0 - {0}))', [Z]), ('exp(sp_log_expit({0}))', 'sp_expit({0})', [Z]),
    ('sp_tklmbda({0}, 1)', '(1 + {0}) / 2', [Q]), ('sp_tklmbda({0}, 0)', 'sp_expit({0})', [Z]), ('sp_owens_t(0, {0})', 'atan({0}) / (2 * pi)', [R]), ('sp_owens_t({0}, 1)', 'sp_ndtr({0}) * (1 - sp_ndtr({0})) / 2', [Z]), ('sp_entr({0})', '0 - {0} * log({0})', [R]), ('sp_rel_entr({0}, {1})', '{0} * log({0} / {1})', [R, R]),
    ('sp_kl_div({0}, {1})', '{0} * log({0} / {1}) - {0} + {1}', [R, R]), ('sp_huber({0}, {1})', '{1} ^ 2 / 2', [['2', '7'], ['0.5', '1', '2']]), ('sp_huber({0}, {1})', '{0} * ({1} - {0} / 2)', [['0.5', '1'], ['2', '3.25']]), ('sp_pseudo_huber({0}, {1})', '{0} ^ 2 * ((1 + ({1} / {0}) ^ 2) ^ 0.5 - 1)', [R, R]),
    ('sp_lpmv(0, 1, {0})', '{0}', [Q]), ('sp_lpmv(0, 2, {0})', '(3 * {0} ^ 2 - 1) / 2', [Q]), ('sp_lpmv(1, 1, {0})', '0 - (1 - {0} ^ 2) ^ 0.5', [Q]), ('sp_sph_harm(0, 0, {0}, {1})', '1 / (2 * pi ^ 0.5)', [Q, Q]), ('sp_sph_harm(0, 1, {0}, {1})', '(3 / (4 * pi)) ^ 0.5 * cos({1})', [Q, Q]), ('sp_sph_harm(1, 1, {0}, {1})', '0 - (3 / (8 * pi)) ^ 0.5 * sin({1}) * cos({0})', [Q, Q]),
    ('sp_hyp2f1({0}, {1}, {1}, {2})', '(1 - {2}) ^ (0 - {0})', [R, R, Q]), ('sp_hyp2f1(1, 1, 2, {0})', '0 - log(1 - {0}) / {0}', [Q]), ('sp_hyp1f1({0}, {0}, {1})', 'exp({1})', [R, Z]), ('sp_hyp1f1(1, 2, {0})', '(exp({0}) - 1) / {0}', [R]), ('sp_hyperu({0}, {0} + 1, {1})', '{1} ^ (0 - {0})', [R, R]), ('sp_hyp0f1(1.5, {0})', 'sinh(2 * {0} ^ 0.5) / (2 * {0} ^ 0.5)', [R]),
    ('sp_pbdv_d(0, {0})', 'exp(0 - {0} ^ 2 / 4)', [R]), ('sp_pbdv_d(1, {0})', '{0} * exp(0 - {0} ^ 2 / 4)', [R]), ('sp_pbdv_d({0} + 1, {1})', '{1} * sp_pbdv_d({0}, {1}) - {0} * sp_pbdv_d({0} - 1, {1})', [['1', '2', '1.5'], R]), ('sp_pbdv_dp({0}, {1})', '{1} / 2 * sp_pbdv_d({0}, {1}) - sp_pbdv_d({0} + 1, {1})', [['0', '1', '2', '0.5'], R]),
    ('sp_airy_aip(0) * sp_gamma(1 / 3)', '0 - 1 / 3 ^ (1 / 3)', []),
    ('sp_mathieu_a({0}, 0)', '{0} ^ 2', [['0', '1', '2', '3']]), ('sp_mathieu_b({0}, 0)', '{0} ^ 2', [N]), ('sp_kelvin_be({0})', 'sp_ber({0})', [R]), ('sp_kelvin_ke({0})', 'sp_ker({0})', [R]), ('sp_kelvin_bep({0})', 'sp_berp({0})', [R]), ('sp_kelvin_kep({0})', 'sp_kerp({0})', [R]), ('sp_ber(0)', '1', []), ('sp_bei(0)', '0', []), ('sp_berp(0)', '0', []), ('sp_beip(0)', '0', []), ('sp_kei(0)', '0 - pi / 4', []),
    ('sp_beip({0})', '(sp_bei({0} + 0.00001) - sp_bei({0} - 0.00001)) / 0.00002', [R]), ('sp_keip({0})', '(sp_kei({0} + 0.00001) - sp_kei({0} - 0.00001)) / 0.00002', [['0.5', '1', '2']]),
    ('sp_lambertw({0}) * exp(sp_lambertw({0}))', '{0}', [R + ['-0.25']]), ('sp_wrightomega({0}) + log(sp_wrightomega({0}))', '{0}', [Z]), ('sp_agm({0}, {1})', 'pi / 4 * ({0} + {1}) / sp_ellipk((({0} - {1}) / ({0} + {1})) ^ 2)', [R, R]), ('sp_expn({0} + 1, {1})', '(exp(0 - {1}) - {1} * sp_expn({0}, {1})) / {0}', [N, R]), ('sp_exp1({0})', 'sp_expn(1, {0})', [R]),
    ('sp_expi(0 - {0})', '0 - sp_exp1({0})', [R]), ('sp_shichi_si({0}) + sp_shichi_ci({0})', 'sp_expi({0})', [R]), ('sp_shichi_si({0}) - sp_shichi_ci({0})', 'sp_exp1({0})', [R]), ('sp_sici_si(0 - {0})', '0 - sp_sici_si({0})', [R]), ('(sp_sici_si({0} + 0.00001) - sp_sici_si({0} - 0.00001)) / 0.00002', 'sin({0}) / {0}', [R]), ('(sp_sici_ci({0} + 0.00001) - sp_sici_ci({0} - 0.00001)) / 0.00002', 'cos({0}) / {0}', [R]),
    ('sp_zeta(2)', 'pi ^ 2 / 6', []), ('sp_zeta(4)', 'pi ^ 4 / 90', []), ('sp_zetac({0})', 'sp_zeta({0}) - 1', [['1.5', '2', '3.25', '7']]),
    ('(sp_itj0y0_ij0({0} + 0.00001) - sp_itj0y0_ij0({0} - 0.00001)) / 0.00002', 'sp_jv(0, {0})', [R]), ('(sp_itj0y0_iy0({0} + 0.00001) - sp_itj0y0_iy0({0} - 0.00001)) / 0.00002', 'sp_yv(0, {0})', [R]), ('(sp_iti0k0_ii0({0} + 0.00001) - sp_iti0k0_ii0({0} - 0.00001)) / 0.00002', 'sp_iv(0, {0})', [R]), ('(sp_iti0k0_ik0({0} + 0.00001) - sp_iti0k0_ik0({0} - 0.00001)) / 0.00002', 'sp_kv(0, {0})', [R]),
    ('(sp_it2j0y0_ij0({0} + 0.00001) - sp_it2j0y0_ij0({0} - 0.00001)) / 0.00002', '(1 - sp_jv(0, {0})) / {0}', [R]), ('(sp_it2i0k0_ii0({0} + 0.00001) - sp_it2i0k0_ii0({0} - 0.00001)) / 0.00002', '(sp_iv(0, {0}) - 1) / {0}', [R]), ('(sp_it2j0y0_iy0({0} + 0.00001) - sp_it2j0y0_iy0({0} - 0.00001)) / 0.00002', '0 - sp_yv(0, {0}) / {0}', [R]), ('(sp_it2i0k0_ik0({0} + 0.00001) - sp_it2i0k0_ik0({0} - 0.00001)) / 0.00002', '0 - sp_kv(0, {0}) / {0}', [R]),
    ('(sp_itairy_apt({0} + 0.00001) - sp_itairy_apt({0} - 0.00001)) / 0.00002', 'sp_airy_ai({0})', [['0.5', '1', '1.5', '2']]), ('(sp_itairy_bpt({0} + 0.00001) - sp_itairy_bpt({0} - 0.00001)) / 0.00002', 'sp_airy_bi({0})', [R]), ('(sp_itairy_ant({0} + 0.00001) - sp_itairy_ant({0} - 0.00001)) / 0.00002', 'sp_airy_ai(0 - {0})', [R]), ('(sp_itairy_bnt({0} + 0.00001) - sp_itairy_bnt({0} - 0.00001)) / 0.00002', 'sp_airy_bi(0 - {0})', [R]),
    ('exp({0} + {1})', 'exp({0}) * exp({1})', [Z, Z]), ('log(exp({0}))', '{0}', [Z]), ('exp(log({0}))', '{0}', [R]), ('log({0} * {1})', 'log({0}) + log({1})', [R, R]), ('log({0} ^ {1}, {0})', '{1}', [['0.5', '1.5', '2', '7'], Z]),
]


def by_name(text):
    """f<a: 1, b: 2> with the arguments in the order in which f declares its parameters"""
    def order(m):
        args = dict(a.split(': ') for a in m.group(2).split(', '))
        return '%s(%s)' % (m.group(1), ', '.join(args[n] for n in calc.shared().funcs[m.group(1)].syntax))
    return re.sub(r'(\w+)<([^>]*)>', order, text)


def gen_relations(tier):
    for i, (_, _, doms) in enumerate(RELATIONS):
        yield i


def case_relations(i, rec):
    left, right, doms = RELATIONS[i]
    loose = '0.00001' in left + right or 'ncfd' in left or 'nct' in left or 'df(' in left or '_it' in left or 'chdtriv' in left or 'chnd' in left
    rel = F(1, 10 ** 4) if loose else F(1, 10 ** 8)
    for vals in itertools.product(*doms):
        v = ['(%s)' % x if x.startswith('-') else x for x in vals]
        v = [x if not x.startswith('(') else '(0 - %s)' % x[2:-1] for x in v]
        a, b = by_name(left.format(*v)), right.format(*v)
        ga, gb = ev(a), ev(b)
        rec.step(2)
        ok = ga[0] == 'num' and gb[0] == 'num'
        if ok:
            # both sides may be small differences: measure against the larger of them and a small absolute amount
            ok = abs(ga[1] - gb[1]) <= rel * max(abs(ga[1]), abs(gb[1]), F(1, 1000))
            rec.state((i, vals, float(ga[1])))
        rec.check(ok, '%s = %s' % (a, b), gb if gb[0] != 'num' else float(gb[1]), ga if ga[0] != 'num' else float(ga[1]))
    rec.trace()


# ------------------------------------------------------------------ against the library function of the same name

OUTS = {'airy': 'Ai Aip Bi Bip', 'airye': 'eAi eAip eBi eBip', 'itairy': 'Apt Bpt Ant Bnt', 'ellipj': 'sn cn dn ph', 'itj0y0': 'ij0 iy0', 'it2j0y0': 'ij0 iy0', 'iti0k0': 'ii0 ik0', 'it2i0k0': 'ii0 ik0',
        'pbdv': 'd dp', 'pbvv': 'v vp', 'pbwa': 'w wp', 'kelvin': 'Be Ke Bep Kep', 'shichi': 'si ci', 'sici': 'si ci'}
INTEGERS = {'kn': 1, 'bdtrc': 2, 'bdtri': 2, 'nbdtri': 2}     # leading parameters that are whole
GRID = {1: ['-3', '-1.5', '-1', '-0.5', '0', '0.1', '0.3', '0.5', '0.9', '1', '1.5', '2', '3', '5', '10', '(1/3)', '0.001', '25'],
        2: ['-1.5', '-1', '0', '0.25', '0.5', '1', '2', '3.5', '(1/3)'], 3: ['-1', '0', '0.25', '0.5', '1', '2', '3'], 4: ['0', '0.25', '1', '2', '3.5']}


def functions():
    """(name in the calculator, library function, index of the output, number of parameters)"""
    import scipy.special
    c = calc.shared()
    out = []
    for name in sorted(c.funcs):
        if not name.startswith('sp_'):
            continue
        base = name[3:]
        n = c.funcs[name].minparams
        hit = None
        for lib, outs in OUTS.items():
            if base.startswith(lib + '_') and base[len(lib) + 1:] in outs.lower().split():
                hit = (lib, outs.lower().split().index(base[len(lib) + 1:]))
        out.append([name, hit[0] if hit else base, hit[1] if hit else None, n])
    return out


def gen_library(tier):
    for f in functions():
        yield f


def case_library(case, rec):
    import scipy.special
    name, lib, index, n = case
    fn = getattr(scipy.special, lib)
    rec.check(n == calc.shared().funcs[name].maxparams, 'number of parameters of %s' % name, n, calc.shared().funcs[name].maxparams)
    for vals in itertools.product(GRID[n], repeat=n):
        floats = [float(F(v.strip('()'))) for v in vals]
        whole = INTEGERS.get(lib, 0)
        if whole:
            if any(f != int(f) for f in floats[:whole]):
                continue
            args = [int(f) for f in floats[:whole]] + floats[whole:]
        else:
            args = floats
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            w = fn(*args)
            if index is not None:
                w = w[index]
            w = complex(w).real                        # results are real parts
        got = ev('%s(%s)' % (name, ', '.join(vals)))
        rec.step()
        if math.isnan(w) or math.isinf(w):
            good = got == ('err',)
        else:
            good = got[0] == 'num' and not got[2] and abs(got[1] - F(w)) <= F(1, 10 ** 12) * abs(F(w))
        rec.state((name, vals, repr(w)))
        if not rec.check(good, '%s(%s)' % (name, ', '.join(vals)), w, got if got[0] != 'num' else float(got[1])):
            return
    if n == 1:
        # the same for every element of an array, and in other representations
        o = calc.run(calc.shared(), '%s([0.5, 2, 3])' % name)
        want = [ev('%s(%s)' % (name, v)) for v in ('0.5', '2', '3')]
        got = [('num', calc.frac(e.value), calc.unit_obs(e.unit)) if not isinstance(e.value, Exception) else ('err',) for e in o.last().value] if o.ok() or o.results else o.message
        rec.step()
        rec.check(got == want, '%s([0.5, 2, 3])' % name, want, got)
        for a, b in (('0x2', '2'), ('0b11', '3'), ('50%', '0.5'), ('2E0', '2')):
            ga, gb = ev('%s(%s)' % (name, a)), ev('%s(%s)' % (name, b))
            rec.step()
            ok = ga[0] == gb[0] and (ga[0] != 'num' or abs(ga[1] - gb[1]) <= F(1, 10 ** 10) * max(1, abs(gb[1])))
            rec.check(ok, '%s(%s)' % (name, a), gb, ga)
    rec.trace()


SPACES = [
    Space('angles', gen_angles, case_angles, 'all angles of a grid in every unit and form of writing them, under sine, cosine and tangent'),
    Space('pairs', gen_pairs, case_pairs, 'sums and differences of angles in different units, full turns, symmetry, arrays of mixed units'),
    Space('inverse', gen_inverse, case_inverse, 'inverse and hyperbolic functions on and beyond their domains, undone on the principal range'),
    Space('relations', gen_relations, case_relations, 'recurrences, special values, inverses and identities of every special function over argument grids'),
    Space('library', gen_library, case_library, 'every special function on an argument grid against the library function that it names'),
]
