"""C02 Displayed numbers are the exact value correctly rounded, and read back the same."""
import itertools
from fractions import Fraction

from mc.core import Space
from mc import calc
from mc.calc import frac, num, lit

ASSUMPTIONS = ['values fit the configured number size', 'rounding modes are the eight modes of the decimal standard']

MODES = ['ROUND_HALF_UP', 'ROUND_HALF_DOWN', 'ROUND_HALF_EVEN', 'ROUND_UP', 'ROUND_DOWN', 'ROUND_CEILING',
         'ROUND_FLOOR', 'ROUND_05UP']


def ref_round(f, places, mode):
    """integer number of units in the last place"""
    x = f * 10 ** places
    sign = -1 if x < 0 else 1
    a = abs(x)
    q, r = divmod(a.numerator, a.denominator)
    r = Fraction(r, a.denominator)
    up = {'ROUND_HALF_UP': r >= Fraction(1, 2), 'ROUND_HALF_DOWN': r > Fraction(1, 2),
          'ROUND_HALF_EVEN': r > Fraction(1, 2) or (r == Fraction(1, 2) and q % 2 == 1),
          'ROUND_UP': r > 0, 'ROUND_DOWN': False, 'ROUND_CEILING': r > 0 and sign > 0,
          'ROUND_FLOOR': r > 0 and sign < 0, 'ROUND_05UP': r > 0 and q % 10 in (0, 5)}[mode]
    return sign * (q + (1 if up else 0))


def ref_text(f, places, mode):
    n = ref_round(f, places, mode)
    s = str(abs(n)).rjust(places + 1, '0')
    whole, part = (s[:len(s) - places], s[len(s) - places:]) if places else (s, '')
    part = part.rstrip('0')
    return ('-' if n < 0 else '') + whole + ('.' + part if part else '')


def value_set(tier):
    out = []
    nmax, dmax = (40, 24) if tier == 'quick' else (99, 60)
    vs = {Fraction(n, d) for n in range(-nmax, nmax + 1) for d in range(1, dmax + 1)}
    # ties, near ties and carries at every place
    for p in (0, 1, 2, 3, 5, 10, 28, 29, 30, 31):
        u = Fraction(1, 10 ** p)
        for k in (0, 1, 2, 4, 5, 9, 10, 49, 50, 94, 99, 999, 12345):
            for e in (0, Fraction(1, 10 ** (p + 3)), -Fraction(1, 10 ** (p + 3)), Fraction(1, 3 * 10 ** (p + 12)),
                      -Fraction(1, 7 * 10 ** (p + 12))):
                v = (k + Fraction(1, 2)) * u + e
                vs |= {v, -v, k * u, k * u + e, -(k * u + e), 10 - u, 100 - u / 2, -(100 - u / 2)}
    for k in (15, 16, 17, 28, 29, 30, 60, 68, 69, 70, 71, 72, 80, 90, 95, 98, 99):
        vs |= {Fraction(10 ** k), Fraction(10 ** k - 1), Fraction(-10 ** k - 7), Fraction(1, 10 ** k), Fraction(-3, 10 ** k),
               Fraction(2 ** 90 + 1), Fraction(10 ** min(k, 60) * 2 + 1, 2), Fraction(10 ** min(k, 60) + 1, 3)}
    return sorted(vs)


def gen_display(tier):
    vs = value_set(tier)
    places = [0, 1, 2, 3, 5, 30] if tier == 'quick' else [0, 1, 2, 3, 4, 5, 8, 10, 15, 20, 30, 40]
    for i in range(0, len(vs), 60):
        for p in places:
            for m in MODES:
                yield [i, p, m]


_vals = {}


def case_display(case, rec, tier='quick'):
    i, places, mode = case
    if tier not in _vals:
        _vals[tier] = value_set(tier)
    c = calc.new('Advanced')
    computed = []
    for f in _vals[tier][i:i + 60]:
        # computed under the default settings, displayed under the ones of this case
        o = calc.value(c, '%d / %d' % (f.numerator, f.denominator))
        rec.step()
        if o[0] != 'ok' or frac(o[1]) != f:
            rec.bad('division', calc._fr(f), repr(o))
            continue
        computed.append((f, o[1]))
    c.number_prec_set(places)
    c.number_set_rounding(mode)
    for f, n in computed:
        want = ref_text(f, places, mode)
        got = calc.num_text(n, c)
        rec.step()
        rec.state((want, places, mode))
        if not rec.check(got == want, 'text of %s' % calc._fr(f), want, got):
            continue
        rec.check(frac(n) == f, 'displaying changed the value', calc._fr(f), repr(n))
        # read back
        o = calc.value(c, got)
        rec.step()
        if o[0] != 'ok':
            rec.bad('text %r does not read back' % got, 'ok', repr(o))
            continue
        rec.check(calc.num_text(o[1], c) == got, 'text read back displays differently', got, calc.num_text(o[1], c))
        if (f * 10 ** places).denominator == 1:
            rec.check(frac(o[1]) == f, 'text read back is another value', calc._fr(f), repr(o[1]))
        rec.trace()
    # back to other settings: same values, other text
    c.number_prec_set(4)
    c.number_set_rounding('ROUND_DOWN')
    for f, n in computed:
        rec.step()
        rec.check(frac(n) == f and calc.num_text(n, c) == ref_text(f, 4, 'ROUND_DOWN'), 'text after changing settings again',
                  ref_text(f, 4, 'ROUND_DOWN'), calc.num_text(n, c))


def gen_settings(tier):
    """All sequences of setting changes and computations up to a depth."""
    acts = ['p0', 'p3', 'p12', 'rU', 'rD', 'rH', 's40', 's100', 'x', 'y']
    for d in range(1, (5 if tier == 'quick' else 6)):
        yield from ([list(s)] for s in itertools.product(acts, repeat=d) if s[-1][0] != 'x' and s[-1] != 'y')


ACT_MODES = {'rU': 'ROUND_UP', 'rD': 'ROUND_DOWN', 'rH': 'ROUND_HALF_EVEN'}


def case_settings(case, rec):
    c = calc.shared('Advanced')
    c.number_size_set(100)
    c.number_prec_set(30)
    c.number_set_rounding('ROUND_HALF_UP')
    places, mode, size = 30, 'ROUND_HALF_UP', 100
    held = []
    base = {'x': ('2/3', Fraction(2, 3)), 'y': ('-12.0005 + 1/3000000', Fraction('-12.0005') + Fraction(1, 3000000))}
    for nm in ('x',) + tuple(a for a in case[0] if a in base):
        pass
    o = calc.value(c, base['x'][0])
    held.append((base['x'][1], o[1]))
    for a in case[0]:
        if a[0] == 'p':
            places = int(a[1:])
            c.number_prec_set(places)
        elif a in ACT_MODES:
            mode = ACT_MODES[a]
            c.number_set_rounding(mode)
        elif a[0] == 's':
            size = int(a[1:])
            c.number_size_set(size)
        else:
            e, f = base[a]
            o = calc.value(c, e)
            rec.step()
            if o[0] != 'ok' or frac(o[1]) != f:
                rec.bad('computing under changed settings', calc._fr(f), repr(o))
                return
            held.append((f, o[1]))
        rec.check(c.number_prec_get() == places and c.number_size_get() == size, 'settings read back',
                  [places, size], [c.number_prec_get(), c.number_size_get()])
    rec.state((places, mode, size, tuple(f for f, _ in held)))
    for f, n in held:
        rec.step()
        rec.check(frac(n) == f, 'value changed by settings', calc._fr(f), repr(n))
        rec.check(calc.num_text(n, c) == ref_text(f, places, mode), 'text under changed settings',
                  ref_text(f, places, mode), calc.num_text(n, c))
    rec.trace()
    c.number_size_set(100)
    c.number_prec_set(30)
    c.number_set_rounding('ROUND_HALF_UP')


def gen_literals(tier):
    digs = ['0', '1', '9', '5']
    for w in itertools.chain(itertools.product(digs, repeat=1), itertools.product(digs, repeat=2), itertools.product(digs, repeat=3)):
        for p in itertools.chain([()], itertools.product(digs, repeat=1), itertools.product(digs, repeat=2),
                                 itertools.product(digs, repeat=3)):
            for s in ('', '-'):
                yield s + ''.join(w) + ('.' + ''.join(p) if p else '')


def case_literals(case, rec):
    f = Fraction(case)
    for preset in ('Basic', 'Advanced', 'Computing'):
        c = calc.shared(preset)
        o = calc.value(c, case)
        rec.step()
        if o[0] != 'ok':
            rec.bad('literal', calc._fr(f), repr(o))
            continue
        rec.check(frac(o[1]) == f and o[2] is None, 'value of literal', calc._fr(f), repr(o[1]))
        want = ref_text(f, 30, 'ROUND_HALF_UP')
        rec.state(want)
        rec.check(calc.num_text(o[1], c) == want, 'text of literal', want, calc.num_text(o[1], c))
    rec.trace()


def spaces(tier):
    return [
        Space('display', gen_display, lambda case, rec: case_display(case, rec, tier),
              'all small rationals, ties, near ties, carries and extreme magnitudes x places x 8 rounding modes, with read-back'),
        Space('settings', gen_settings, case_settings, 'all sequences of setting changes and computations up to the depth'),
        Space('literals', gen_literals, case_literals, 'all decimal literals over digits 0,1,5,9 with up to 3+3 digits'),
    ]
