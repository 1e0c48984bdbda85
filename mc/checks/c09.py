"""C09 Unit conversion is exact, invertible and consistent.

Reference: mc/units.py, an independent table of unit sizes and dimensions taken from the standards.
"""
from fractions import Fraction as F
import itertools

from mc.core import Space
from mc import calc, units
from mc.units import UNITS, BYNAME, BASE, SCALES, SCALE_NAMES, size_of, text_of

ASSUMPTIONS = ['sizes of units are those of the standards named in mc/units.py; one parsec is taken as 30856775814913673 m',
               'degrees use the calculator\'s own pi, so conversions between radians and degrees are compared to 40 digits']

SI = {'m': 'meter', 'kg': 'kilogram', 's': 'second', 'A': 'ampere', 'K': 'kelvin', 'mol': 'mole', 'cd': 'candela', 'rad': 'radian', 'sr': 'steradian', 'bit': 'bit'}


def si_text(vec):
    return ' '.join(SI[b] if p == 1 else '%s^%s' % (SI[b], p) for b, p in zip(BASE, vec) if p)


def near(a, b):
    return a == b or abs(a - b) <= abs(b) * F(1, 10 ** 40)


def same(got, want, text):
    return near(got, want) if any(w in text for w in ('deg', '°', 'rad')) else got == want


def convert(c, text):
    """exact number and shown unit of an expression, or an error text"""
    o = calc.run(c, text)
    if o.kind == 'crash':
        return ('crash', repr(o.exc)[:200])
    if not o.ok() or o.last() is None:
        return ('err', o.message)
    r = o.last()
    try:
        return ('ok', calc.frac(r.value), calc.unit_obs(r.unit))
    except Exception:
        return ('other', calc.res_obs(r, c))


def want_conv(rec, c, text, value, unit=None):
    got = convert(c, text)
    rec.step()
    ok = got[0] == 'ok' and same(got[1], value, text) and (unit is None or (got[2] == (((unit, '1'),) if isinstance(unit, str) else unit)))
    return rec.check(ok, 'converted value', [text, str(value), unit], [str(g) for g in got])


# --- every name ---------------------------------------------------------------------------------------------------

def gen_names(tier):
    for i, u in enumerate(UNITS):
        forms = []
        for n in u.names:
            forms += [n, n.upper(), n.title(), n.swapcase()]
        for f in dict.fromkeys(forms + u.symbols):
            yield [i, f]


def case_names(case, rec):
    i, f = case
    u = UNITS[i]
    c = calc.shared()
    si = si_text(u.vec)
    me = BYNAME[u.names[0]].names[0]
    if 1:
        for v, t in ((F(1), '1'), (F(-7, 2), '-3.5'), (F(12), '12')):
            for gap in (' ', '', '  ') if f[0] != 'Z' else (' ', '  '):       # 12Z… is a number in base 12
                want_conv(rec, c, '%s%s%s to %s' % (t, gap, f, si), v * u.size)
            want_conv(rec, c, '%s %s to %s' % (t, si, f), v / u.size, me)
        want_conv(rec, c, '5 %s' % f, F(5), me)
        want_conv(rec, c, '%s to %s' % (f, si), u.size)
        for p in (2, -1, -2, 3):
            want_conv(rec, c, '5 %s^%d to %s' % (f, p, si_text([x * p for x in u.vec])), 5 * u.size ** p)
        rec.state((f, str(u.size)))
        rec.trace()
    if f != u.names[0]:
        return
    # a symbol in another case is another unit or none
    for s in u.symbols:
        for t in {s.upper(), s.lower(), s.swapcase()} - {s}:
            o = units.BYSYMBOL.get(t)
            if o is None and t not in BYNAME and t.lower() not in {n.lower() for n in BYNAME} and t not in ('G', 'pi', 'e', 'C', 'F') and t.isalpha():
                got = convert(c, '5 %s to %s' % (t, si))
                rec.step()
                rec.check(got[0] == 'err', 'symbols are case sensitive', '5 %s' % t, [str(g) for g in got])
    # no unit recognised inside a longer word
    for n in u.names[:1]:
        for w in (n + 'x', n + '_', 'x' + n, n + 'é'):
            got = convert(c, '5 %s to %s' % (w, si))
            rec.step()
            rec.check(got[0] == 'err', 'a longer word is not the unit', '5 %s' % w, [str(g) for g in got])


# --- all pairs ----------------------------------------------------------------------------------------------------

VALUES = [('3', F(3)), ('-0.75', F(-3, 4)), ('1000000000000000000000.0000000001', F('1000000000000000000000.0000000001')), ('0', F(0)), ('(1/7)', F(1, 7))]


def gen_pairs(tier):
    for i in range(len(UNITS)):
        yield i


def case_pairs(i, rec):
    a = UNITS[i]
    c = calc.shared()
    for b in UNITS:
        if b.vec != a.vec:
            continue
        an, bn = a.names[0], b.names[-1] if a.dim != 'time' else b.names[0]
        if a.symbols and b.symbols:
            bn = b.symbols[0] if b.symbols[0] != 'as' else bn         # 'as' on its own: see names
        for t, v in VALUES:
            if not want_conv(rec, c, '%s %s to %s' % (t, an, bn), v * a.size / b.size, b.names[0]):
                return
            if not want_conv(rec, c, '(%s %s to %s) to %s' % (t, an, bn, an), v, a.names[0]):
                return
        rec.trace()
    rec.state((a.names[0],))


def gen_triples(tier):
    dims = {}
    for u in UNITS:
        if u.prefix in ('', 'kilo', 'centi', 'micro', 'kibi') or tier != 'quick':
            dims.setdefault(u.vec, []).append(u)
    for us in dims.values():
        if len(us) > 2:
            for a in us:
                for b in us:
                    yield [a.names[0], b.names[0]]


def case_triples(case, rec):
    a, b = (BYNAME[n] for n in case)
    c = calc.shared()
    for d in UNITS:
        if d.vec == a.vec and (d.prefix in ('', 'kilo', 'centi', 'kibi')):
            if not want_conv(rec, c, '0.3 %s to %s to %s' % (a.names[0], b.names[0], d.names[0]), F(3, 10) * a.size / d.size, d.names[0]):
                return
            rec.trace()
    rec.state(case)


# --- products and powers of units ---------------------------------------------------------------------------------

POOL = ['meter', 'foot', 'second', 'hour', 'kilogram', 'pound', 'joule', 'newton', 'litre', 'kelvin', 'knot', 'ampere', 'hertz', 'volt', 'acre', 'kilobyte']


def composites(tier):
    out = []
    pw = (1, -1, 2, -2) if tier == 'quick' else (1, -1, 2, -2, 3)
    for n in POOL:
        for p in pw:
            out.append(((n, p),))
    for a, b in itertools.permutations(POOL, 2):
        for p, q in itertools.product(pw, repeat=2):
            out.append(((a, p), (b, q)))
    for trip in (('kilogram', 'meter', 'second'), ('pound', 'foot', 'hour'), ('joule', 'second', 'ampere'), ('newton', 'litre', 'hertz'), ('joule', 'kelvin', 'mole')):
        for ps in itertools.product(pw, repeat=3):
            out.append(tuple(zip(trip, ps)))
    return out


def norm_unit(pairs):
    """how the calculator's observation of this unit reads (names and powers; zero powers leave)"""
    acc = {}
    for n, p in pairs:
        k = BYNAME[n].names[0]
        acc[k] = acc.get(k, 0) + p
    return tuple(sorted((k, str(p)) for k, p in acc.items() if p))


def gen_composite(tier):
    groups = {}
    for cpt in composites(tier):
        groups.setdefault(size_of(cpt)[1], []).append(cpt)
    limit = 12 if tier == 'quick' else 60
    for v, g in groups.items():
        if not any(v):
            continue
        for cpt in g[:limit]:
            yield [list(map(list, cpt)), [list(map(list, d)) for d in g[:limit]]]


def case_composite(case, rec):
    a, others = case
    c = calc.shared()
    sa, va = size_of(a)
    for b in others:
        sb, vb = size_of(b)
        text = '3 %s to %s' % (text_of(a), text_of(b))
        if not want_conv(rec, c, text, 3 * sa / sb, norm_unit(b)):
            return
        rec.trace()
    pos = [x for x in a if x[1] > 0]
    neg = [[n, -p] for n, p in a if p < 0]
    if pos and neg:
        text = '3 %s/%s to %s' % (text_of(pos), '(%s)' % text_of(neg) if len(neg) > 1 else text_of(neg), si_text(va))
        want_conv(rec, c, text, 3 * sa)
    rec.state((str(sa), va))


def reps(tier):
    seen = {}
    for cpt in composites(tier) + [((u.names[0], 1),) for u in UNITS]:
        v = size_of(cpt)[1]
        if any(v):
            seen.setdefault(v, cpt)
    out = list(seen.values())
    return out if tier != 'quick' else out[:180] + out[-60:]


def gen_refuse(tier):
    rs = reps(tier)
    for i, a in enumerate(rs):
        yield [i, tier]


_reps = {}


def case_refuse(case, rec):
    i, tier = case
    rs = _reps.setdefault(tier, reps(tier))
    a = rs[i]
    c = calc.shared()
    for j, b in enumerate(rs):
        if i == j:
            continue
        text = '3 %s to %s' % (text_of(a), text_of(b))
        got = convert(c, text)
        rec.step()
        if not rec.check(got[0] == 'err', 'conversion between different dimensions is refused', text, [str(g) for g in got]):
            return
    ta = text_of(a)
    for text in ('3 to %s', '%s to 3', '3 %s to 2 %s', "3 %s to 's'", "'s' to %s", '3 %s to true', '0 %s to 1', '3 %s to [1]', '3 %s to nosuch', '3 %s to'):
        t = text.replace('%s', ta)
        got = convert(c, t)
        if text == '3 %s to [1]' and got[0] == 'other':
            got = ('err' if got[1][0][1][0][0] == ('err',) else 'ok',)
        rec.step()
        rec.check(got[0] == 'err', 'only units can be converted to units', t, [str(g) for g in got])
    rec.state(a)
    rec.trace()


# --- temperatures -------------------------------------------------------------------------------------------------

TEMPS = ['kelvin', 'millikelvin', 'kilokelvin', 'Celsius', 'Fahrenheit']
TVALS = ['0', '1', '-1', '-40', '100', '-273.15', '-459.67', '273.15', '37.5', '(1/3)', '1000000000000000000000', '0.000000000000000000000001']


def to_k(n, v):
    if n in SCALES:
        off, sc = SCALES[n]
        return (v + off) * sc
    return v * BYNAME[n].size


def from_k(n, k):
    if n in SCALES:
        off, sc = SCALES[n]
        return k / sc - off
    return k / BYNAME[n].size


def gen_temps(tier):
    for a in TEMPS:
        for b in TEMPS:
            yield [a, b]


def case_temps(case, rec):
    a, b = case
    c = calc.shared()
    na, nb = SCALE_NAMES.get(a, (a,)), SCALE_NAMES.get(b, (b,))
    for t in TVALS:
        v = F(t[1:-1] if t[0] == '(' else t)
        want = from_k(b, to_k(a, v))
        for x in na:
            for y in nb:
                want_conv(rec, c, '%s %s to %s' % (t, x, y), want, b)
                want_conv(rec, c, '(%s %s to %s) to %s' % (t, x, y, x), v, a)
        for d in TEMPS:
            want_conv(rec, c, '%s %s to %s to %s' % (t, a, b, d), from_k(d, to_k(a, v)), d)
        # in a compound unit a temperature is an interval
        sa = SCALES[a][1] if a in SCALES else BYNAME[a].size
        sb = SCALES[b][1] if b in SCALES else BYNAME[b].size
        for fa, fb, p, extra in (('J/%s', 'J/%s', -1, 1), ('%s m', '%s cm', 1, 100), ('%s/m', '%s/km', 1, 1000), ('%s^-1', '%s^-1', -1, 1), ('%s^2', '%s^2', 2, 1),
                                 ('W/(m^2 %s)', 'W/(m^2 %s)', -1, 1)):
            want_conv(rec, c, '%s %s to %s' % (t, fa % a, fb % b), v * (sa / sb) ** p * extra)
        rec.trace()
    rec.state(case)
    for d in ('m', 's', 'J', 'bit', 'J/K'):
        got = convert(c, '5 %s to %s' % (a, d))
        rec.check(got[0] == 'err', 'conversion between different dimensions is refused', [a, d], [str(g) for g in got])


# --- names shared by several systems ------------------------------------------------------------------------------

ORDERS = [None, ['us', 'uk'], ['uk', 'us'], ['si', 'uk', 'gregorian', 'us'], ['uk', 'si', 'us'], ['us', 'gregorian', 'si', 'uk', 'asu', 'nautical', 'iec'],
          ['gregorian', 'si', 'uk', 'us', 'asu', 'nautical', 'iec']]


def gen_ambiguous(tier):
    """every shared name under every sequence of preferences, set one after another in one calculator"""
    for n in (1, 2) if tier == 'quick' else (1, 2, 3):
        for seq in itertools.product(range(len(ORDERS)), repeat=n):
            # the first order is the default one, which can only come first
            if all(a != b for a, b in zip(seq, seq[1:])) and 0 not in seq[1:]:
                for i in range(len(units.AMBIGUOUS)):
                    yield [list(seq), i]


def case_ambiguous(case, rec):
    c = calc.new()
    for o in case[0]:
        ambiguous_under(c, case, ORDERS[o], units.AMBIGUOUS[case[1]], rec)


def ambiguous_under(c, case, order, shared, rec):
    names, symbols, us, uk = shared
    if order is not None:
        c.unit_normaliser.systems_preference = list(order)
    pick = BYNAME[us]
    if order is not None and order.index('uk') < order.index('us'):
        pick = BYNAME[uk]
    base = 'm^3' if pick.dim == 'volume' else 'kg'
    texts = [n.replace('_', ' ') for n in names.split()]
    texts += [t.upper() for t in texts] + [t.title() for t in texts] + symbols.split()
    for t in texts:
        want_conv(rec, c, '5 %s' % t, F(5), pick.names[0])
        want_conv(rec, c, '5 %s to %s' % (t, base), 5 * pick.size)
        want_conv(rec, c, '5 %s to %s' % (base, t), 5 / pick.size, pick.names[0])
        for spec in (us, uk):
            s = BYNAME[spec]
            want_conv(rec, c, '5 %s to %s' % (spec, t), 5 * s.size / pick.size, pick.names[0])
            want_conv(rec, c, '5 %s to %s' % (t, spec), 5 * pick.size / s.size, s.names[0])
            want_conv(rec, c, '5 %s' % spec, F(5), s.names[0])
        rec.trace()
    rec.state((case, order, pick.names[0]))


SPACES = [
    Space('names', gen_names, case_names, 'every name in several cases, symbol, prefix and power of every unit, against its defined size'),
    Space('pairs', gen_pairs, case_pairs, 'all ordered pairs of units of the same dimension, there and back'),
    Space('triples', gen_triples, case_triples, 'conversion by way of a third unit'),
    Space('composite', gen_composite, case_composite, 'all pairs of products of unit powers that have the same dimension'),
    Space('refuse', gen_refuse, case_refuse, 'all pairs of dimensions of the pool: refused'),
    Space('temperatures', gen_temps, case_temps, 'all pairs and triples of temperature scales'),
    Space('ambiguous', gen_ambiguous, case_ambiguous, 'names shared by several systems under several preferences'),
]
