"""C17 Numeric and statistical functions agree with their definitions.

Reference: exact rationals, Python integers, and the decimal module at 160 digits for powers, logarithms and square roots.
"""
from decimal import Decimal as D, Context, ROUND_HALF_EVEN
from fractions import Fraction as F
import itertools
import math

from mc.core import Space
from mc import calc

ASSUMPTIONS = ['round() rounds halves away from zero, the default rounding mode (the other modes: C02)', 'places are whole and not negative', 'results of irrational functions are compared to 1e-40',
               'min, max and mode give the first of several candidates', 'a number on its own is not an array', 'exponentials and logarithms of quantities with units are not specified']
CTX = Context(prec=160, rounding=ROUND_HALF_EVEN, Emax=10 ** 9, Emin=-10 ** 9)


def C():
    return calc.shared()


def ev(text):
    o = calc.run(C(), text)
    if o.kind == 'crash':
        return 'crash ' + repr(o.exc)
    if o.err():
        return 'err'
    r = o.last()
    if isinstance(r.value, list):
        return [e if isinstance(e.value, Exception) else num(e) for e in r.value]
    return num(r)


def num(r):
    try:
        if isinstance(r.value, str):                   # min and max give back the element itself
            return F(r.value), calc.unit_obs(r.unit)
        return calc.frac(r.value), calc.unit_obs(r.unit)
    except Exception:
        return 'not a number: ' + repr(r.value)


def dec(fr):
    return CTX.divide(D(fr.numerator), D(fr.denominator))


def close(got, want, rel=D(10) ** -40):
    """Fractions against a 160 digit decimal"""
    g = dec(got)
    return CTX.abs(CTX.subtract(g, want)) <= CTX.multiply(rel, max(CTX.abs(want), D(10) ** -20))


# ------------------------------------------------------------------ forms of one value

def forms(fr):
    """texts that all mean the same number, as arguments"""
    out = ['(%d/%d)' % (fr.numerator, fr.denominator)]
    n, d = fr.numerator, fr.denominator
    for p in (2, 5):
        while d % p == 0:
            d //= p
    if d == 1:
        places = 0
        while (10 ** places) % fr.denominator:
            places += 1
        k = abs(n) * 10 ** places // fr.denominator
        s = str(k).rjust(places + 1, '0')
        text = ('-' if n < 0 else '') + (s[:-places] + '.' + s[-places:] if places else s)
        out += [text, "'%s'" % text]
        digits = str(k)
        mant = ('-' if n < 0 else '') + digits[0] + ('.' + digits[1:] if len(digits) > 1 else '')
        out.append('%sE%d' % (mant, len(digits) - 1 - places))
        p2 = fr * 100
        if p2.denominator == 1:
            out.append('%d%%' % p2.numerator)
    if fr.denominator == 1 and n >= 0:
        out += ['0x%X' % n, '0b%s' % bin(n)[2:], '0o%s' % oct(n)[2:]]
    return out


# ------------------------------------------------------------------ 1. rounding

RVALS = [F(0), F(1), F(-1), F(1, 2), F(-1, 2), F(3, 2), F(-3, 2), F(5, 2), F(5, 4), F(-5, 4), F(1, 3), F(-2, 3), F(1, 8), F(3, 8), F(999, 1000), F(-999, 1000), F(1001, 1000), F(12345678, 1000), F(-12345675, 1000), F(1, 1000000), F(45, 100), F(449999, 10 ** 6),
         F(10 ** 20 * 2 + 1, 2), F(10 ** 30 + 1, 10 ** 10), F(10 ** 40), F(-10 ** 25 - 1, 4), F(1, 7), F(22, 7), F(10 ** 12 - 1, 10 ** 6), F(5, 10 ** 7), F(-25, 10 ** 3), F(35, 10 ** 3)]


def ref_round(kind, fr, places):
    x = fr * 10 ** places
    if kind == 'floor':
        y = x.numerator // x.denominator
    elif kind == 'ceil':
        y = -((-x.numerator) // x.denominator)
    else:
        y = (abs(x) + F(1, 2)).__floor__() * (1 if x >= 0 else -1)
    return F(y, 10 ** places)


def g_round(tier):
    for v in RVALS if tier == 'quick' else RVALS + [F(a, b) for a in range(-60, 61) for b in (1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 40, 1000)]:
        yield str(v)


def c_round(case, rec):
    fr = F(case)
    texts = [t for t in forms(fr) if t[0] in "('-0123456789" and 'x' not in t and 'b' not in t and 'o' not in t and '%' not in t and 'E' not in t]
    for kind in ('floor', 'ceil', 'round'):
        for places in (None, 0, 1, 2, 3, 6, 9, 20):
            want = ref_round(kind, fr, places or 0)
            for t in texts:
                for u, uo in (('', None), (' m', (('meters', '1'),)), (' kg m s^-2', (('kilograms', '1'), ('meters', '1'), ('seconds', '-2'))), (' \u00b0C', (('Celsius', '1'),))):
                    if t[0] == "'" and u:
                        continue
                    args = t + u + ('' if places is None else ', %d' % places)
                    got = ev('%s(%s)' % (kind, args))
                    rec.step()
                    rec.check(not isinstance(got, str) and got == (want, uo), 'rounding', ['%s(%s)' % (kind, args), str(want)], got)
            if places:
                for p in ('0x%X' % places, '%d.0' % places, "'%d'" % places, '(%d/1)' % places):
                    got = ev('%s(%s, %s)' % (kind, texts[0], p))
                    rec.step()
                    rec.check(not isinstance(got, str) and got[0] == want, 'rounding to places given in another form', [kind, texts[0], p, str(want)], got)
            rec.state((kind, case, places, want))
            # idempotent
            got = ev('%s(%s(%s, %d), %d)' % (kind, kind, texts[0], places or 0, places or 0))
            rec.step()
            rec.check(not isinstance(got, str) and got[0] == want, 'rounding twice', [kind, case, places], got)
    got = ev('abs(%s)' % texts[0])
    rec.check(got == (abs(fr), None), 'absolute value', case, got)
    for t in forms(fr):
        for u, uo in (('', None), (' m', (('meters', '1'),)), (' km/hour', (('kilometers', '1'), ('hours', '-1')))):
            if t[0] == "'" and u:
                continue
            got = ev('abs(%s%s)' % (t, u))
            rec.step()
            rec.check(not isinstance(got, str) and got[0] == abs(fr) and got[1] == uo or uo and len(uo) > 1 and not isinstance(got, str) and got[0] == abs(fr), 'absolute value', t + u, got)


# ------------------------------------------------------------------ 2. integers

BAD_INT = ['0.5', '(1/3)', '1.000000001', '50%', '-0.5', "'a'", "'1.5'", '1E-1', '(1/0)', 'nosuch', '{1}', "''", '2.5 m', '[1, 0.5]']


def g_int(tier):
    for n in range(0, 41 if tier == 'quick' else 121):
        yield ['fact', n]
    for n in (50, 69, 70, 71, 100, 170, 171, 200, 250, 500):
        yield ['fact', n]
    for a in range(-13, 31) if tier == 'quick' else range(-40, 101):
        yield ['pair', a, tier]
    for a in (10 ** 20, 2 ** 64, 3 ** 40, 10 ** 30 + 57, 2 ** 53 + 1, 6 ** 30, -2 ** 70):
        yield ['big', a]
    yield ['bad']


def c_int(case, rec):
    kind = case[0]
    if kind == 'fact':
        n = case[1]
        want = F(math.factorial(n))
        for t in forms(F(n)):
            got = ev('fact(%s)' % t)
            rec.step()
            rec.check(got == (want, None), 'factorial', t, got)
        got = ev('fact(%d m)' % n)
        rec.check(got == (want, (('meters', '1'),)), 'factorial of a quantity', n, got)
        if n:
            got = ev('fact(%d) / fact(%d)' % (n, n - 1))
            rec.check(not isinstance(got, str) and abs(got[0] / n - 1) < F(1, 10 ** 95), 'factorials divide', n, got)
            got = ev('fact(-%d)' % n)
            rec.check(got == 'err', 'factorial of a negative number', -n, got)
        rec.state(('fact', n))
    elif kind in ('pair', 'big'):
        a = case[1]
        others = (range(-13, 31) if case[2] == 'quick' else range(-40, 101)) if kind == 'pair' else [1, 2, 3, 6, 10, 2 ** 53, 10 ** 20, 3 ** 41, 10 ** 15 + 37, 2 ** 53 + 1, a, -a, a + 1, 0]
        for b in others:
            g, l = math.gcd(a, b), abs(a * b) // math.gcd(a, b) if a and b else 0
            for fn, w in (('gcd', g), ('lcm', l)):
                if w >= 10 ** 99:
                    continue
                fa, fb = forms(F(a)), forms(F(b))
                pairs = [(fa[1], fb[1])] + ([(x, y) for x in fa for y in fb] if (a, b) in ((12, 18), (4, -6), (0, 5), (7, 1)) else [(fa[(a + b) % len(fa)], fb[(a * 3 + b) % len(fb)])])
                for x, y in pairs:
                    got = ev('%s(%s, %s)' % (fn, x, y))
                    rec.step()
                    rec.check(got == (F(w), None), fn, [x, y, w], got)
                got = ev('%s(%d m, %d cm)' % (fn, a, b * 100))
                rec.step()
                rec.check(got == (F(w), (('meters', '1'),)), fn + ' of lengths', [a, b * 100, w], got)
                rec.state((fn, a, b, w))
    else:
        for t in BAD_INT:
            for text in ('fact(%s)', 'gcd(%s, 4)', 'gcd(4, %s)', 'lcm(%s, 4)', 'lcm(4, %s)'):
                o = calc.run(C(), text % t)
                rec.step()
                arr = o.ok() and t[0] == '[' and isinstance(o.last().value[1].value, Exception)
                rec.check(o.err() or arr, 'not an integer', text % t, o.obs(C()) if o.ok() else repr(o.exc))
                rec.state((text, t))
        for text in ('gcd(4 m, 6 s)', 'lcm(4 m, 6 s)', 'lcm(4 m, 6 mm)' if False else 'lcm(4 m, 650 cm)', 'gcd(4 m, 650 cm)', 'gcd(4)', 'lcm(4)', 'gcd(1, 2, 3)', 'fact()', 'fact(1, 2)', 'fact(-1 m)', 'abs()', 'abs(1, 2)', "abs('a')", 'round()', "round('a')", "round(1, 'a')", 'round(1, 2, 3)', 'floor(1/0)',
                     'log(0)', 'log(-1)', 'log(8, 1)', 'log(8, 0)', 'log(8, -2)', "log('a')", 'log(0, 2)', 'log()', 'log(1, 2, 3)', 'exp()', "exp('a')", 'exp(1, 2)', '(-8)^(1/3)', '0^0', '0^-1', '(-1)^0.5', '2^(1 m)', "2^'a'"):
            got = ev(text)
            rec.step()
            rec.check(got == 'err', 'outside the domain', text, got)


# ------------------------------------------------------------------ 3. powers, exponentials, logarithms

PB = [F(1), F(2), F(3), F(10), F(1, 2), F(1, 3), F(7, 5), F(999, 1000), F(1001, 1000), F(123456789, 1000), F(10 ** 15), F(1, 10 ** 9), F(4), F(9), F(27), F(1, 16)]
PE = [F(0), F(1), F(-1), F(2), F(-3), F(1, 2), F(-1, 2), F(1, 3), F(3, 2), F(7, 5), F(1, 10), F(5), F(10), F(-9, 4), F(20), F(1, 100)]
XS = [F(0), F(1), F(-1), F(1, 2), F(2), F(5), F(-5), F(10), F(1, 3), F(-1, 10), F(100), F(-30), F(1, 10 ** 6), F(37, 10), F(7, 3)]


def power(b, e):
    if e.denominator == 1 and abs(e) <= 64:
        return dec(b ** int(e))
    return CTX.exp(CTX.multiply(CTX.ln(dec(b)), dec(e)))


def g_pow(tier):
    for b in PB:
        yield ['pow', str(b)]
        yield ['log', str(b)]
    for x in XS:
        yield ['exp', str(x)]


def c_pow(case, rec):
    kind, v = case[0], F(case[1])
    if kind == 'pow':
        for e in PE:
            want = power(v, e)
            for i, tb in enumerate(forms(v)):
                for te in (forms(e) if i == 0 else forms(e)[:2]):
                    text = '%s ^ %s' % (tb if tb[0] in "(" or tb[-1] == '%' or 'E' in tb else tb, '(%s)' % te)
                    got = ev(text)
                    rec.step()
                    ok = not isinstance(got, str) and got[1] is None and close(got[0], want)
                    rec.check(ok, 'power', [text, str(want)[:50]], got)
                    if e.denominator == 1 and ok:
                        rec.check(got[0] == v ** int(e) or abs(got[0] / v ** int(e) - 1) < F(1, 10 ** 95), 'whole power', text, got)
            rec.state(('pow', v, e))
            if e != 0:
                got = ev('(%s ^ (%s)) ^ (1/(%s))' % (forms(v)[0], forms(e)[0], forms(e)[0]))
                rec.check(not isinstance(got, str) and close(got[0], dec(v)), 'power and root', [case[1], str(e)], got)
            if v != 1:
                got = ev('log(%s ^ (%s), %s)' % (forms(v)[0], forms(e)[0], forms(v)[0]))
                rec.check(not isinstance(got, str) and close(got[0], dec(e), D(10) ** -30), 'logarithm of a power', [case[1], str(e)], got)
            rec.step(2)
    elif kind == 'log':
        want = CTX.ln(dec(v))
        for t in forms(v):
            got = ev('log(%s)' % t)
            rec.step()
            rec.check(not isinstance(got, str) and close(got[0], want), 'natural logarithm', t, got)
            got = ev('exp(log(%s))' % t)
            rec.step()
            rec.check(not isinstance(got, str) and close(got[0], dec(v)), 'exponential of the logarithm', t, got)
            for b in PB:
                if b == 1:
                    continue
                want2 = CTX.divide(want, CTX.ln(dec(b)))
                for tb in forms(b)[:4]:
                    got = ev('log(%s, %s)' % (t, tb))
                    rec.step()
                    rec.check(not isinstance(got, str) and close(got[0], want2), 'logarithm to a base', [t, tb, str(want2)[:50]], got)
                rec.state(('log', v, b))
    else:
        want = CTX.exp(dec(v))
        for t in forms(v):
            got = ev('exp(%s)' % t)
            rec.step()
            rec.check(not isinstance(got, str) and close(got[0], want), 'exponential', [t, str(want)[:50]], got)
            got = ev('log(exp(%s))' % t)
            rec.step()
            rec.check(not isinstance(got, str) and close(got[0], dec(v), D(10) ** -35), 'logarithm of the exponential', t, got)
            for y in XS:
                got, w = ev('exp(%s) * exp(%s)' % (t, forms(y)[0])), CTX.exp(dec(v + y))
                rec.step()
                rec.check(not isinstance(got, str) and close(got[0], w), 'product of exponentials', [t, str(y)], got)
            rec.state(('exp', v))


# ------------------------------------------------------------------ 4. statistics

# sets of elements: text -> (exact value in the base of its set, size of its unit, offset, unit)
M = ('meters', '1')
SETS = {
    'plain': {'1': (F(1), F(1), F(0), None), '-2': (F(-2), F(1), F(0), None), '0.5': (F(1, 2), F(1), F(0), None), '(1/3)': (F(1, 3), F(1), F(0), None), '0x3': (F(3), F(1), F(0), None), '50%': (F(1, 2), F(1), F(0), None), '1E2': (F(100), F(1), F(0), None),
              "'7'": (F(7), F(1), F(0), None), '0': (F(0), F(1), F(0), None), '0b1': (F(1), F(1), F(0), None)},
    'lengths': {'1 m': (F(1), F(1), F(0), (M,)), '100 cm': (F(1), F(1, 100), F(0), (('centimeters', '1'),)), '0.001 km': (F(1), F(1000), F(0), (('kilometers', '1'),)), '3 ft': (F('0.9144'), F('0.3048'), F(0), (('feet', '1'),)), '-1 m': (F(-1), F(1), F(0), (M,)),
                '0x2 m': (F(2), F(1), F(0), (M,)), '36 in': (F('0.9144'), F('0.0254'), F(0), (('inches', '1'),)), '2.5 m': (F(5, 2), F(1), F(0), (M,))},
    'temperatures': {'20 \u00b0C': (F('293.15'), F(1), F('273.15'), (('Celsius', '1'),)), '68 \u00b0F': (F('293.15'), F(5, 9), F('459.67') * F(5, 9), (('Fahrenheit', '1'),)), '300 K': (F(300), F(1), F(0), (('kelvin', '1'),)), '-40 \u00b0C': (F('233.15'), F(1), F('273.15'), (('Celsius', '1'),)),
                     '-40 \u00b0F': (F('233.15'), F(5, 9), F('459.67') * F(5, 9), (('Fahrenheit', '1'),))},
    'speeds': {'5 m/s': (F(5), F(1), F(0), None), '18 km/hour': (F(5), F(1000, 3600), F(0), None), '1 km/s': (F(1000), F(1000), F(0), None), '-36 km/hour': (F(-10), F(1000, 3600), F(0), None)},
    'near': {'1': (F(1), F(1), F(0), None), '1.000000000000000000000000000001': (F(10 ** 30 + 1, 10 ** 30), F(1), F(0), None), '100000000000000000000': (F(10 ** 20), F(1), F(0), None), '100000000000000000001': (F(10 ** 20 + 1), F(1), F(0), None),
             '0.99999999999999999999': (F(10 ** 20 - 1, 10 ** 20), F(1), F(0), None), '9007199254740993': (F(9007199254740993), F(1), F(0), None), '9007199254740992': (F(9007199254740992), F(1), F(0), None)}}
FNS = ['sum', 'min', 'max', 'mean', 'median', 'mode', 'stdev']


def reference(fn, els, table):
    """(value in the unit of the first element [or of the element found], unit) or 'err'"""
    vals = [table[e][0] for e in els]
    size, off, unit = table[els[0]][1:]
    own = [(v / size - off / size) for v in vals]
    if fn == 'sum':
        return sum(own), unit
    if fn == 'mean':
        return sum(own) / len(own), unit
    if fn == 'median':
        s = sorted(own)
        k = len(s) // 2
        return (s[k] if len(s) % 2 else (s[k - 1] + s[k]) / 2), unit
    if fn == 'mode':
        best = max(own.count(x) for x in own)
        return [x for x in own if own.count(x) == best][0], unit
    if fn in ('min', 'max'):
        best = min(vals) if fn == 'min' else max(vals)
        e = els[vals.index(best)]
        v, size, off, unit = table[e]
        return v / size - off / size, unit
    if len(own) < 2:
        return 'err'
    m = sum(own) / len(own)
    var = sum((x - m) ** 2 for x in own) / (len(own) - 1)
    return CTX.sqrt(dec(var)), unit


def g_stat(tier):
    for name, table in SETS.items():
        keys = list(table)
        for n in range(1, 3):
            for els in itertools.product(keys, repeat=n):
                yield [name, list(els)]
        for els in itertools.product(keys if tier == 'thorough' else keys[:7], repeat=3):
            yield [name, list(els)]
        for els in itertools.product(keys[:5] if tier == 'thorough' else keys[:3], repeat=4):
            yield [name, list(els)]
        for els in itertools.product(keys[1:3], repeat=5):
            yield [name, list(els)]
    yield ['bad', []]


def c_stat(case, rec):
    name, els = case
    if name == 'bad':
        for fn in FNS:
            for args in ("['a']", "[1, 'a']", "'a'", '7', '3 m', '[1 m, 2 s]', '[1 m, 2]', '[1, 2 m]', '1/0', '[1, 1/0]', 'nosuch', '[true, 1, 2 m]', '[[1, 2], 3]', '{1}', '', '[]', "[1, '']", "['1 m']", '[m]', '1 m, 2 s', "1, 'a'", '1, 1/0', '[1, nosuch]', '[{1}]'):
                got = ev('%s(%s)' % (fn, args))
                rec.step()
                ok = got == 'err' or isinstance(got, list) and args == '[[1, 2], 3]'
                rec.check(ok, 'not an array of numbers', '%s(%s)' % (fn, args), got)
                rec.state((fn, args))
        return
    table = SETS[name]
    calc.run(C(), 'reset()')
    calc.run(C(), 'a_ = [%s]' % ', '.join(els))
    for fn in FNS:
        want = reference(fn, els, table)
        texts = ['%s([%s])' % (fn, ', '.join(els)), '%s(a_)' % fn]
        if len(els) > 1:
            texts.append('%s(%s)' % (fn, ', '.join(els)))
        for text in texts:
            got = ev(text)
            rec.step()
            if want == 'err':
                rec.check(got == 'err', fn, text, got)
                continue
            if isinstance(got, (str, list)):
                rec.check(False, fn, [text, str(want[0])], got)
                continue
            if fn == 'stdev':
                ok = close(got[0], want[0], D(10) ** -40) or CTX.abs(CTX.subtract(dec(got[0]), want[0])) < D(10) ** -45
            else:
                ok = got[0] == want[0] or abs(got[0] - want[0]) <= abs(want[0]) / 10 ** 80
            rec.check(ok and (name == 'speeds' or got[1] == want[1]), fn, [text, str(want[0]), want[1]], got)
        rec.state((fn, name, tuple(sorted(els)), str(want)))
    # in the unit asked for, whatever the order of the elements
    if len(els) > 1 and name in ('lengths', 'plain'):
        for fn in ('sum', 'mean', 'median', 'min', 'max', 'stdev'):
            outs = set()
            for perm in itertools.islice(itertools.permutations(els), 6):
                got = ev('%s([%s])%s' % (fn, ', '.join(perm), ' to mm' if name == 'lengths' else ''))
                rec.step()
                outs.add(got if isinstance(got, str) else round(got[0] * 10 ** 40))
            rec.check(len(outs) == 1, fn + ' of the elements in another order', els, sorted(outs, key=str))


SPACES = [Space('rounding', g_round, c_round, 'all values x places x units x forms under floor, ceil, round and abs'),
          Space('integers', g_int, c_int, 'factorials of all small numbers, gcd and lcm of all pairs, in all representations and in units; arguments outside the domain'),
          Space('powers', g_pow, c_pow, 'all pairs of bases and exponents, exponentials and logarithms, and their inverses'),
          Space('statistics', g_stat, c_stat, 'all lists of up to 3 elements (and longer ones of fewer elements) of numbers and quantities under all statistical functions, as arrays, variables and arguments')]
