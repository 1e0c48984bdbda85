"""C11 Formatting and compacting quantities never loses anything.

Every unit x every measuring system x a value set is formatted by the real calculator; the text is read back by an independent reader
(mc/units.py sizes) and by the calculator itself.  All products of unit powers of a pool are compacted and compared physically.
"""
from fractions import Fraction as F
import itertools
import re

from mc.core import Space
from mc import calc, units
from mc.units import UNITS, BYNAME, BYSYMBOL, SCALES, size_vec, size_of
from mc.checks.c10 import calcs

ASSUMPTIONS = ['the text of format() shows its smallest part to the calculator\'s precision (30 decimals): the sum is exact to half a unit of the last place of each part',
               'a part of a quantity may be a whole number of its unprefixed unit shown with a prefix (2.5 kilotonnes); negative quantities are one part or all parts of the same sign',
               'weeks, lightweeks, gills and UK quarts are accepted as input and not used by format']

ORDER = ['gregorian', 'si', 'us', 'uk', 'asu', 'nautical', 'iec']
SYS = {'gregorian': 'seconds minutes hours days months years',
       'us': 'inches feet yards miles|grains ounces pounds|short tons|US drams|US fluid ounces|US cups|US pints|US quarts|US gallons|acres|pound-force per square inch|Fahrenheit',
       'uk': 'inches feet yards miles|grains ounces pounds stone|long tons|UK fluid ounces|UK pints|UK gallons|acres|pound-force per square inch|Fahrenheit',
       'asu': 'lightyears lightdays lighthours lightminutes lightseconds parsecs|astronomical units', 'nautical': 'nautical miles|knots', 'iec': 'bits bytes'}
MEMBERS = {}
for _s, _t in SYS.items():
    MEMBERS[_s] = set()
    for _g in _t.split('|'):
        MEMBERS[_s] |= {_g} if ' ' in _g and _g in BYNAME else set(_g.split(' '))
_other = set().union(*MEMBERS.values())
for _n in MEMBERS['iec'] | {'seconds'}:
    _other.discard(_n)
NOSYS = {'gees', 'atmospheres'}
UNUSED = {'weeks': 'gregorian', 'lightweeks': 'asu', 'UK gills': 'uk', 'UK quarts': 'uk', 'US gills': 'us'}
MEMBERS['si'] = {u.plain for u in BYNAME.values()} - _other - NOSYS - set(UNUSED)
assert all(n in BYNAME for s in MEMBERS.values() for n in s), [n for s in MEMBERS.values() for n in s if n not in BYNAME]

IEC = tuple(units.IEC)


def insys(u, s):
    if u.prefix in IEC:
        return s == 'iec'
    if u.prefix and u.dim == 'data' and s != 'si':
        return False
    return u.plain in MEMBERS[s]


def systems_of(u):
    return [s for s in ORDER if insys(u, s) or UNUSED.get(u.plain) == s]


DIMS = {}
for _u in BYNAME.values():
    DIMS.setdefault(_u.dim, []).append(_u)

VALS = [F(0), F(1), F(-1), F(1, 2), F(2), F(12), F('59.999'), F(60), F(61), F('1023.5'), F(1000), F('999.999'), F(1024), F(10) ** 21, F('1e-12'), F(1, 3), F('-61.5'),
        F('123456789.987654321'), F(86400) * 365]
MORE = [F(3, 7), F(10) ** 33, F('1e-25'), F(25), F(3600), F('3599.9999999999'), F(1760), F('0.999999'), F(2240), F(-1, 3), F(8), F(7)] + [F(i) for i in range(3, 24)]


def absolute(v, u):
    if u.plain in SCALES:
        off, sc = SCALES[u.plain]
        return (v + off) * sc
    return v * u.size


PART = re.compile(r'(-?[0-9.]+(?:E[+-]?\d+)?) (.+)$')


def parts_of(text):
    out = []
    for p in text.split(', '):
        m = PART.match(p)
        if not m or m.group(2) not in BYNAME:
            return None
        out.append((F(m.group(1)), m.group(2)))
    return out


def g_format(tier):
    vals = VALS if tier == 'quick' else VALS + MORE
    for ui in range(len(ALL)):
        for k in range(0, len(vals), 8):
            yield [ui, [str(v) for v in vals[k:k + 8]]]


ALL = UNITS + [BYNAME[n] for n in SCALES]


def c_format(case, rec):
    u = ALL[case[0]]
    for _, c in calcs():
        for vt in case[1]:
            v = F(vt)
            for s in [None] + ORDER:
                one(c, u, v, s, rec)


def one(c, u, v, s, rec):
    text = 'format(%s %s%s)' % (calc.lit(v), u.names[0], '' if s is None else ', ' + s)
    o = calc.run(c, text)
    rec.step()
    if o.kind == 'crash':
        return rec.bad('crash', text, repr(o.exc)[:200])
    system = s
    if s is None:
        mine = systems_of(u)
        if not mine:
            return rec.check(o.err(), 'no system, still formatted', text, o.obs(c) if o.ok() else None)
        system = mine[0]
    avail = [w for w in DIMS[u.dim] if insys(w, system)]
    if not avail:
        return rec.check(o.err(), 'formatted in a system without such units', text, o.obs(c) if o.ok() else None)
    if not o.ok():
        return rec.bad('not formatted', text, o.message)
    r = o.results[-1]
    if not rec.check(isinstance(r.value, str) and r.unit is None, 'not a text', text, calc.res_obs(r, c)):
        return
    ps = parts_of(r.value)
    if ps is None:
        return rec.bad('not readable', text, r.value)
    shown = [BYNAME[n] for _, n in ps]
    rec.state((case_key(u), system, r.value))
    for (n, name), w in zip(ps, shown):
        rec.check(w.dim == u.dim and insys(w, system), 'unit outside the system', text, r.value)
        rec.check(name in w.names, 'name', text, r.value)
        sing = len(w.names) > 1 and w.names[0] != w.names[1]
        if sing:
            rec.check((name == w.names[1]) == (n == 1) and name in w.names[:2], 'singular', text, r.value)
    want = absolute(v, u)
    got = sum(absolute(n, w) for (n, _), w in zip(ps, shown))
    tol = sum(w.size for w in shown) * F(1, 10 ** 30) * F(1, 2)
    if u.dim == 'angle':
        tol += abs(want) * F(1, 10 ** 38)
    big = max(abs(n) for n, _ in ps)
    if not rec.check(abs(got - want) <= tol, 'parts do not sum to the quantity', [text, str(want)], [r.value, str(got - want)]):
        return
    if u.plain in SCALES or u.plain == 'kelvin':
        rec.check(len(ps) == 1, 'a point on a scale split into parts', text, r.value)
        return
    sizes = [w.size for w in shown]
    rec.check(all(a > b for a, b in zip(sizes, sizes[1:])), 'units not in decreasing size', text, r.value)
    if v < 0:
        rec.check(all(n <= 0 for n, _ in ps), 'signs', text, r.value)
        return
    rec.check(all(n >= 0 for n, _ in ps), 'signs', text, r.value)
    if len(ps) > 1:
        rec.check(all(n > 0 for n, _ in ps), 'empty part', text, r.value)
    if len(ps) > 1:
        rest = [sum(absolute(n, w) for (n, _), w in list(zip(ps, shown))[i + 1:]) for i in range(len(ps) - 1)]
        for i, ((n, _), w) in enumerate(list(zip(ps, shown))[:-1]):
            base = BYNAME[w.plain] if not (w.prefix in IEC) else BYNAME[w.plain]
            count = n * w.size / base.size
            rec.check(abs(count - round(count)) * base.size <= w.size * F(1, 10 ** 30), 'a part is not whole', text, r.value)
            rec.check(rest[i] < base.size + tol, 'the rest is at least one more unit', text, r.value)
    # largest fitting unit comes first
    bigger = [w for w in avail if not w.prefix and w.size <= want * (1 - F(1, 10 ** 30)) and u.dim != 'angle']
    if bigger:
        lead = BYNAME[shown[0].plain]
        top = max(w.size for w in bigger)
        rec.check(lead.size == top or shown[0].size >= top, 'a larger unit fits', text, [r.value, str(top)])
    # the text can be typed back
    back = calc.run(c, '(' + ' + '.join('%s %s' % (calc.lit(n), name) for n, name in ps) + ') to ' + u.names[0])
    rec.step()
    rec.trace(1)
    if not back.ok():
        return rec.bad('cannot be typed back', [text, r.value], back.message)
    b = back.results[-1]
    sv, vv = size_vec(b.unit)
    rec.check(vv == u.vec and abs(calc.frac(b.value) * sv - want) <= tol, 'typed back is another quantity', [text, r.value], calc.res_obs(b, c))


def case_key(u):
    return u.names[0]


# ---------------------------------------------------------------- compact / simplify

POOL = ['C', 'm', 'ft', 'km', 's', 'hours', 'kg', 'lb', 'g', 'N', 'J', 'W', 'l', 'K', 'Celsius', 'A', 'V', 'Pa', 'Hz', 'B', 'deg', 'acres', 'knots', 'Ω', 'mol', 'lx', 'miles', 'S', 'T', 'UK pints', 'psi', 'tonnes', 'kibibytes', 'ms']
for _k in ('psi', 'acres', 'UK pints', 'tonnes', 'kibibytes', 'knots', 'hours', 'miles'):
    assert _k in BYNAME or _k in BYSYMBOL
for _k in SCALES:
    BYSYMBOL.setdefault(_k, BYNAME[_k])
POW = (1, -1, 2, -2, 3, -3)


def products(n, pool, pows):
    for names in itertools.combinations(pool, n):
        for ps in itertools.product(pows, repeat=n):
            yield list(zip(names, ps))


def g_compact(tier):
    yield from chunks(products(1, POOL, POW + (4, -4)), 8)
    yield from chunks(products(2, POOL[:20] if tier == 'quick' else POOL, (1, -1, 2, -2) if tier == 'quick' else POW), 40)
    if tier != 'quick':
        yield from chunks(products(3, POOL[:24], (1, -1, 2)), 60)
    else:
        yield from chunks(products(3, ['m', 's', 'kg', 'N', 'A', 'ft', 'V', 'hours'], (1, -1, 2, -2)), 60)


def chunks(it, n):
    it = iter(it)
    while True:
        c = [[list(x) for x in p] for p in itertools.islice(it, n)]
        if not c:
            return
        yield [c]


def utext(pairs):
    return ' '.join(n if p == 1 else '%s^%d' % (n, p) for n, p in pairs)


def c_compact(case, rec):
    (name_on, on), (name_off, off) = calcs()
    for pairs in case[0]:
        t = utext(pairs)
        for v in ('7', '-1000/3', '0'):
            text = 'compact((%s) %s)' % (v, t) if '/' not in v else 'compact(%s * 1 %s)' % ('(-1000/3)', t)
            vv = {'7': F(7), '-1000/3': F(-1000, 3), '0': F(0)}[v]
            size, vec = size_of([tuple(p) for p in pairs])
            single = len(pairs) == 1 and pairs[0][1] == 1 and pairs[0][0] in SCALES
            for c in (on, off):
                o = calc.run(c, text)
                rec.step()
                if not o.ok():
                    rec.bad('error', text, o.message or repr(o.exc)[:200])
                    continue
                r = o.results[-1]
                s2, v2 = size_vec(r.unit)
                rec.state((t, v, calc.unit_obs(r.unit)))
                rec.check(tuple(v2) == tuple(vec), 'dimension', [text, vec], calc.res_obs(r, c))
                want = absolute(vv, BYNAME[pairs[0][0]]) if single else vv * size
                if r.unit is not None and len(r.unit.list()) == 1 and r.unit.list()[0].unit.names()[0] in SCALES and single:
                    got = absolute(calc.frac(r.value), BYNAME[r.unit.list()[0].unit.names()[0]])
                else:
                    got = calc.frac(r.value) * s2
                ok = got == want or (any(p[0] in ('deg',) for p in pairs) and abs(got - want) <= abs(want) * F(1, 10 ** 38))
                rec.check(ok, 'quantity', [text, str(want)], [str(got), calc.res_obs(r, c)])
                # again: nothing more to simplify
                if r.unit is None:
                    continue
                c.vars['q_'] = (r.value, r.unit)
                p = calc.run(c, 'compact(q_)')
                rec.step()
                if not p.ok():
                    rec.bad('error', [text, 'again'], p.message or repr(p.exc)[:200])
                    continue
                q = p.results[-1]
                s3, v3 = size_vec(q.unit)
                g3 = calc.frac(q.value) * s3
                base = calc.frac(r.value) * s2
                rec.check(v3 == v2 and (g3 == base or 'deg' in t and abs(g3 - base) <= abs(base) * F(1, 10 ** 38)), 'compacting twice changes the quantity', text, calc.res_obs(q, c))


# ---------------------------------------------------------------- displayed names

def g_names(tier):
    for ui in range(len(ALL)):
        yield [[[ui, p]] for p in (1, 2, -1, -3)]
    pool = range(0, len(ALL), 9 if tier == 'quick' else 3)
    for a, b in itertools.permutations(pool, 2):
        yield [[[a, p], [b, q]] for p, q in ((1, -1), (1, 1), (-1, -2), (2, -3))]
    if tier != 'quick':
        for a, b, d in itertools.permutations(range(0, len(ALL), 17), 3):
            yield [[[a, p], [b, q], [d, r]] for p, q, r in ((1, -1, 1), (1, 1, -2), (-1, -2, -1), (2, 1, 1))]


def flat(x):
    return x if isinstance(x, str) else ''.join(i[0] for i in x)


def c_names(case, rec):
    (_, on), (_, c) = calcs()
    for combo in case:
        us = [(ALL[i], p) for i, p in combo]
        t = ' '.join(u.names[0] if p == 1 else '%s^%d' % (u.names[0], p) for u, p in us)
        size, vec = F(1), [0] * len(units.BASE)
        for u, p in us:
            size *= u.size ** p
            vec = [a + b * p for a, b in zip(vec, u.vec)]
        o = calc.run(c, '5 ' + t)
        rec.step()
        if not o.ok():
            rec.bad('error', '5 ' + t, o.message or repr(o.exc)[:200])
            continue
        un = o.results[-1].unit
        if un is None:
            rec.check(len(us) > 1, 'no unit', t, None)
            continue
        shown = set()
        kinds = []
        for joined in (True, False):
            kinds += [('singular', un.singular(False, joined)), ('plural', un.plural(False, joined))]
        if un.has_symbols():
            kinds += [('symbol', un.symbol()), ('symbol', un.symbol(False))]
        for kind, got in kinds:
            s = flat(got)
            if not s or s in shown:
                continue
            shown.add(s)
            if kind == 'symbol' and re.search(r'(^|[ /])as($|[ /^])', s):
                continue                     # 'as' is the conversion operator (recorded with C09)
            b = calc.run(c, '5 ' + s if not s.startswith('/') else '5' + s)
            rec.step()
            rec.trace(1)
            if not b.ok():
                rec.bad('shown name cannot be typed', [t, kind, s], b.message or repr(b.exc)[:200])
                continue
            r = b.results[-1]
            s2, v2 = size_vec(r.unit)
            ok = list(v2) == vec and calc.frac(r.value) * s2 == 5 * size
            rec.state((t, s))
            rec.check(ok, 'shown name is another unit', [t, kind, s], calc.res_obs(r, c))


SPACES = [Space('format', g_format, c_format, 'every unit x every measuring system x values: the parts of the text sum to the quantity'),
          Space('compact', g_compact, c_compact, 'every product of up to 2 (3) unit powers of a pool'),
          Space('names', g_names, c_names, 'displayed names of every unit and of products of two units typed back')]
