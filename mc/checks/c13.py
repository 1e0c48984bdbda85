"""C13 Number representations are lossless and never affect the value.

Reference: positional values as exact rationals, an own formatter for every base, Python integers for the bitwise operators, and the same
operation on plain decimal operands.
"""
from fractions import Fraction as F
import itertools
import re

from mc.core import Space
from mc import calc

ASSUMPTIONS = ['a value whose expansion in the base is longer than the configured 30 places is cut after them',
               'an operation shows its result in the representation of its first operand that is not plain decimal',
               'the rounding functions count places in the representation of the number (50.5% to 0 places is 51%, see C17)']

D = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
KNOWN = ('e', 'G')            # constants: 0xFG is 0xF times G


def C():
    return calc.shared()


def posval(digits, b):
    neg = digits.startswith('-')
    digits = digits.lstrip('-').upper()
    whole, _, fr = digits.partition('.')
    v = F(0)
    for ch in whole:
        v = v * b + D.index(ch)
    for i, ch in enumerate(fr):
        v += F(D.index(ch), b ** (i + 1))
    return -v if neg else v


def show(v, b, places=30):
    """digits of v in base b, cut after the places; None if not exact"""
    neg, v = v < 0, abs(v)
    whole, fr = int(v), v - int(v)
    s = ''
    while whole:
        whole, d = divmod(whole, b)
        s = D[d] + s
    s = s or '0'
    f = ''
    while fr and len(f) < places:
        fr *= b
        f += D[int(fr)]
        fr -= int(fr)
    exact = fr == 0
    f = f.rstrip('0')
    s += '.' + f if f else ''
    return ('-' if neg and s != '0' else '') + s, exact


def prefixed(s, p):
    return '-' + p + s[1:] if s.startswith('-') else p + s


def PREF(b):
    return ['%dz' % b] + {2: ['0b', '0B'], 8: ['0o', '0O'], 16: ['0x', '0X']}.get(b, [])


def one(text):
    o = calc.run(C(), text)
    return o, (o.last() if o.ok() else None)


# ------------------------------------------------------------------ literals

def g_lit(tier):
    for b in range(2, 37):
        for neg in ('', '-'):
            yield ['pos', b, neg]
        yield ['bad', b]
    for m in ['0', '1', '9', '10', '-7', '1.5', '-0.25', '123456789.987654321', '0.001', '99.99', '00.50', '007']:
        yield ['exp', m]
        yield ['perc', m]
    yield ['octal']


def c_lit(case, rec):
    if case[0] == 'pos':
        _, b, neg = case
        ds = sorted({D[0], D[1], D[b // 2], D[b - 1]})
        wholes = [''.join(p) for n in (1, 2, 3) for p in itertools.product(ds, repeat=n)]
        fracs = [''] + [''.join(p) for n in (1, 2) for p in itertools.product(ds, repeat=n)]
        for pre in PREF(b):
            for w in wholes:
                for f in fracs if len(w) < 3 else fracs[:3]:
                    for low in (False, True):
                        d = w + ('.' + f if f else '')
                        if low and d.lower() == d:
                            continue
                        text = neg + pre + (d.lower() if low else d)
                        lit_ok(text, posval(neg + d, b), pre, rec, b)
        long = ''.join(ds * 8)
        lit_ok(neg + PREF(b)[0] + long, posval(neg + long, b), PREF(b)[0], rec, b)
        lit_ok(neg + PREF(b)[-1] + '1.' + long[:28] + '1', posval(neg + '1.' + long[:28] + '1', b), PREF(b)[-1], rec, b)
    elif case[0] == 'bad':
        b = case[1]
        for d in D[b:]:
            for pre in PREF(b):
                for body in (d, '1' + d, d + '1', '1' + d + '1', '1.' + d, '1.1' + d, d.lower(), '1' + d.lower()):
                    o, r = one(pre + body)
                    rec.step()
                    if o.kind == 'crash':
                        rec.bad('crash', pre + body, repr(o.exc)[:200])
                    elif o.ok():
                        # only as a legal number next to something else (a constant or a decimal number), never as a digit
                        head = re.match('[' + D[:b] + D[:b].lower() + '.]*', body).group()
                        rest = body[len(head):]
                        legal = posval(head.upper() or '0', b)
                        if rest[:1] in KNOWN:
                            continue
                        rec.check(r.unit is not None and calc.frac(r.value) in (legal, 0), 'illegal digit accepted', pre + body, calc.res_obs(r, C(), True))
        for pre in ('0z1', '1z0', '1z1', '37z1', '37zA', '99z0'):
            o, r = one(pre)
            rec.step()
            rec.check(not o.ok() and o.kind != 'crash', 'base out of range', pre, o.obs(C()) if o.ok() else repr(o.exc))
    elif case[0] == 'exp':
        m = case[1]
        for e in list(range(-12, 13)) + [-29, 29, 60]:
            for s in ('E', 'e'):
                text = '%s%s%d' % (m, s, e)
                o, r = one(text)
                rec.step()
                want = F(m) * F(10) ** e
                if rec.check(o.ok() and calc.frac(r.value) == want and r.unit is None, 'scientific literal', [text, str(want)], o.obs(C(), True) if o.ok() else o.message):
                    reread(r, want, text, rec, sig=31)
    elif case[0] == 'perc':
        m = case[1]
        text = m + '%'
        o, r = one(text)
        rec.step()
        want = F(m) / 100
        if rec.check(o.ok() and calc.frac(r.value) == want, 'percentage literal', [text, str(want)], o.obs(C(), True) if o.ok() else o.message):
            reread(r, want, text, rec, suffix='%')
    else:
        for n in range(0, 600):
            lit_ok('0o%o' % n, F(n), '0o', rec, 8)
            lit_ok('0x%x' % n, F(n), '0x', rec, 16)
            lit_ok('0b' + bin(n)[2:], F(n), '0b', rec, 2)
            lit_ok(str(n), F(n), '', rec, 10)


def lit_ok(text, want, pre, rec, b):
    o, r = one(text)
    rec.step()
    if not o.ok() or r.unit is not None:
        return rec.bad('literal', [text, str(want)], o.message if not o.ok() else calc.res_obs(r, C()))
    if not rec.check(calc.frac(r.value) == want, 'literal value', [text, str(want)], calc.res_obs(r, C(), True)):
        return
    rec.state((text, str(want)))
    # as a string the same number
    o2, r2 = one("'%s' + 0" % text)
    rec.step()
    rec.check(o2.ok() and calc.frac(r2.value) == want, 'number in a string', [text, str(want)], o2.obs(C()) if o2.ok() else o2.message)
    t = calc.num_text(r.value, C())
    exp, exact = show(want, b)
    ok = not (pre.lower() == '0b') and t == prefixed(exp, pre.lower())
    if pre.lower() == '0b':
        w = text.lower().lstrip('-')[2:].split('.')[0]
        e = exp.lstrip('-').split('.')
        e = e[0].zfill(len(w)) + ('.' + e[1] if len(e) > 1 else '')
        ok = t == prefixed(('-' if want < 0 else '') + e, '0b')
    rec.check(ok, 'literal shown', [text, exp], t)
    if exact:
        reread(r, want, text, rec)


def reread(r, want, tag, rec, sig=None, suffix=None):
    t = calc.num_text(r.value, C())
    if suffix:
        rec.check(t.endswith(suffix), 'representation lost', tag, t)
    o, r2 = one(t)
    rec.step()
    rec.trace(1)
    rec.check(o.ok() and calc.frac(r2.value) == want, 'shown text reads as another number', [tag, str(want), t], o.obs(C()) if o.ok() else o.message)
    if o.ok():
        rec.check(calc.num_text(r2.value, C()) == t, 'shown again differently', [tag, t], calc.num_text(r2.value, C()))


def g_long(tier):
    for b in range(2, 37):
        for neg in ('', '-'):
            yield [b, neg, [4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 20, 21, 24, 31, 33, 40, 53, 54, 64, 65] if tier == 'quick' else list(range(4, 90))]


def c_long(case, rec):
    """literals of many digits, as far as the calculator keeps digits"""
    b, neg, lengths = case
    top, mid = D[b - 1], D[b // 2]
    for n in lengths:
        if b ** n > 10 ** 99:
            continue
        for w in {top * n, '1' + '0' * (n - 1), '1' + '0' * (n - 2) + '1', mid + top * (n - 1), top + '0' * (n - 1), (top + '0') * (n // 2), (D[:b] * n)[1:n + 1], (D[:b][::-1] * n)[:n]}:
            for d in (w, w[:n // 2] + '.' + w[n // 2:]):
                if '.' in d and (n - n // 2 > 30 or b ** n > 10 ** 60):
                    continue
                lit_ok(neg + '%dz' % b + d, posval(neg + d, b), '%dz' % b, rec, b)
                for pre in PREF(b)[1::2]:
                    lit_ok(neg + pre + d, posval(neg + d, b), pre, rec, b)
        rec.trace()


# ------------------------------------------------------------------ conversions

VALUES = [F(0), F(1), F(-1), F(2), F(7), F(10), F(-15), F(16), F(35), F(36), F(255), F(256), F(1, 2), F(-3, 4), F(1, 3), F(22, 7), F('0.1'), F('-12.625'), F(10) ** 12, F(2) ** 40 + 1,
          F('123.456'), F(1, 1024), F('1e-20'), F(5, 36), F(-10) ** 9, F('99.5'), F(36) ** 5 - 1, F(10) ** 28 + 1]
REPS = ['decimal', 'binary', 'octal', 'hexadecimal', 'percentage', 'scientific']
FUNC = {'decimal': 'dec', 'binary': 'bin', 'octal': 'oct', 'hexadecimal': 'hex', 'scientific': 'scientific'}
BASE = {'decimal': 10, 'binary': 2, 'octal': 8, 'hexadecimal': 16}


def shown(v, rep):
    """expected text in a representation, and whether it is exact; None if the check does not know"""
    if rep in BASE:
        if rep == 'decimal':
            s, exact = show(v, 10)
            return (s, True) if exact else (None, False)
        s, exact = show(v, BASE[rep])
        return prefixed(s, {2: '0b', 8: '0o', 16: '0x'}[BASE[rep]]), exact
    if rep == 'percentage':
        s, exact = show(v * 100, 10)
        return (s + '%', True) if exact else (None, False)
    if v == 0:
        return '0E0', True
    e = 0
    a = abs(v)
    while a >= 10:
        a /= 10
        e += 1
    while a < 1:
        a *= 10
        e -= 1
    s, exact = show(a, 10)
    return (('-' if v < 0 else '') + s + 'E%d' % e, True) if exact else (None, False)


def g_conv(tier):
    vs = VALUES + ([F(n, d) for n in range(-20, 21, 3) for d in (1, 2, 3, 8, 10, 36, 64, 81)] if tier != 'quick' else [])
    for v in vs:
        yield [str(v)]


def c_conv(case, rec):
    v = F(case[0])
    lit = calc.lit(v)
    made = {}
    for rep in REPS:
        for text in ['%s as %s' % (lit, rep)] + (['%s(%s)' % (FUNC[rep], lit)] if rep in FUNC else []):
            o, r = one(text)
            rec.step()
            if not rec.check(o.ok(), 'conversion refused', text, o.message):
                continue
            rec.check(calc.frac(r.value) == v, 'conversion changes the value', [text, str(v)], calc.res_obs(r, C(), True))
            t = calc.num_text(r.value, C())
            exp, exact = shown(v, rep)
            rec.state((text, t))
            if exp is not None:
                rec.check(t == exp, 'shown in the representation', [text, exp], t)
            if exact:
                reread(r, v, text, rec)
            else:
                o2, r2 = one(t)
                unit = F(1, BASE.get(rep, 10) ** 30) / (100 if rep == 'percentage' else 1) * (max(1, abs(v)) if rep == 'scientific' else 1)
                rec.check(o2.ok() and abs(calc.frac(r2.value) - v) < unit, 'shown beyond the places', [text, str(v)], t)
            made[rep] = '(%s)' % text
    for a in REPS:
        for b in REPS:
            o, r = one('%s as %s' % (made.get(a, '0'), b))
            rec.step()
            if rec.check(o.ok(), 'conversion refused', [a, b, case[0]], o.message):
                rec.check(calc.frac(r.value) == v, 'conversion of a conversion changes the value', [a, b, case[0]], calc.res_obs(r, C(), True))
                exp, _ = shown(v, b)
                if exp is not None:
                    rec.check(calc.num_text(r.value, C()) == exp, 'shown in the representation', [a, b, exp], calc.num_text(r.value, C()))
    for b in list(range(2, 37)):
        text = 'base(%s, %d)' % (lit, b)
        o, r = one(text)
        rec.step()
        if not rec.check(o.ok() and calc.frac(r.value) == v, 'base()', [text, str(v)], o.obs(C()) if o.ok() else o.message):
            continue
        t = calc.num_text(r.value, C())
        s, exact = show(v, b)
        if b != 10 or exact:
            rec.check(t == prefixed(s, '%dz' % b), 'base() shown', [text, s], t)
        if exact:
            reread(r, v, text, rec)
    for b in (-1, 0, 1, 37, 100):
        o, r = one('base(%s, %d)' % (lit, b))
        rec.step()
        rec.check(o.err(), 'base out of range', [lit, b], o.obs(C()) if o.ok() else repr(o.exc))
    for p in range(0, 8):
        o, r = one('scientific(%s, %d)' % (lit, p))
        rec.step()
        if rec.check(o.ok(), 'scientific', [lit, p], o.message):
            d = abs(calc.frac(r.value) - v)
            rec.check(d <= abs(v) * F(1, 2 * 10 ** p), 'scientific() further than half a place', [lit, p], calc.res_obs(r, C(), True))


# ------------------------------------------------------------------ operations

OPV = [F(0), F(1), F(12), F(-5), F(5, 2), F(255), F(1, 4), F(100)]
FORMS = ['dec', 'bin', 'oct', 'hex', 'perc', 'sci', '12z', 'str', 'strhex']
ARITH = ['+', '-', '*', '/', '%', '\\', '^', '==', '!=', '<', '>', '<=', '>=']
NUMF1 = ['abs', 'exp', 'log', 'fact', 'sin', 'cos', 'tan', 'atan', 'sum', 'mean', 'min', 'max', 'median', 'stdev', 'sp_gamma', 'asinh']
NUMF2 = ['gcd', 'lcm', 'log', 'sum', 'mean', 'min', 'max', 'median', 'mode', 'stdev', 'sort', 'sp_beta']


def form(v, f):
    """text of v in a form; None if not finite in it"""
    if f == 'dec':
        return calc.lit(v) if '/' not in calc.lit(v) else None
    if f in ('str', 'strhex'):
        t = form(v, 'dec' if f == 'str' else 'hex')
        return t and "'%s'" % t
    if f == 'perc':
        s, ex = show(v * 100, 10)
        return s + '%' if ex else None
    if f == 'sci':
        t, ex = shown(v, 'scientific')
        return t if ex else None
    b = {'bin': 2, 'oct': 8, 'hex': 16, '12z': 12}[f]
    s, ex = show(v, b)
    return prefixed(s, {'bin': '0b', 'oct': '0o', 'hex': '0x', '12z': '12z'}[f]) if ex else None


def intext(v, f):
    """text expected of a result v shown in form f; None if unknown"""
    if f == 'dec' or f == 'str':
        s, ex = show(v, 10)
        return s if ex else None
    if f == 'perc':
        return shown(v, 'percentage')[0]
    if f == 'sci':
        return shown(v, 'scientific')[0]
    b = {'bin': 2, 'oct': 8, 'hex': 16, 'strhex': 16, '12z': 12}[f]
    return prefixed(show(v, b)[0], {'bin': '0b', 'oct': '0o', 'hex': '0x', 'strhex': '0x', '12z': '12z'}[f])


def g_ops(tier):
    for op in ARITH:
        for fa in FORMS:
            for fb in FORMS:
                yield ['op', op, fa, fb]
    for f in NUMF1:
        yield ['f1', f]
    for f in NUMF2:
        for fa in FORMS:
            yield ['f2', f, fa]
    for fa in FORMS:
        yield ['unit', fa]
        yield ['assign', fa]


def first_form(*fs):
    for f in fs:
        if f != 'dec':
            return f
    return 'dec'


_ref = {}


def ref(text):
    if text not in _ref:
        _ref[text] = calc.obs1(C(), text)
    return _ref[text]


def same_as(text, plain, f, rec):
    """text gives the value of the plain decimal text, shown in form f"""
    o = calc.run(C(), text)
    rec.step()
    want = ref(plain)
    if o.kind == 'crash':
        return rec.bad('crash', text, repr(o.exc)[:200])
    if want[0] == 'err' or not o.ok():
        return rec.check(o.err() and want[0] == 'err', 'representation decides over an error', [text, plain, want], o.obs(C()) if o.ok() else o.message)
    r = o.last()
    if isinstance(r.value, str) and want[1][0] == 'n':
        # an element chosen by a function stays a text
        rec.check(ref(r.value + ' + 0') == want, 'representation affects the value', [text, plain, want], r.value)
        return
    elif isinstance(r.value, list):
        for e in r.value:
            e.value = C().number(e.value)
    if not rec.check(calc.res_obs(r, C()) == want[1:], 'representation affects the value', [text, plain, want], calc.res_obs(r, C())):
        return
    rec.state((text,))
    if want[1][0] == 'n':
        v = calc.frac(r.value)
        exp = intext(v, f) if abs(v.numerator) * v.denominator < 10 ** 90 else None
        if exp is not None:
            rec.check(calc.num_text(r.value, C()) == exp, 'result in another representation', [text, exp], calc.num_text(r.value, C()))


def c_ops(case, rec):
    if case[0] == 'op':
        _, op, fa, fb = case
        for a, b in itertools.product(OPV, repeat=2):
            if op == '^' and (abs(b) > 12 or b.denominator > 1):
                continue
            ta, tb = form(a, fa), form(b, fb)
            if ta is None or tb is None:
                continue
            pa, pb = form(a, 'dec'), form(b, 'dec')
            same_as('(%s) %s (%s)' % (ta, op, tb), '(%s) %s (%s)' % (pa, op, pb), first_form(fa, fb), rec)
    elif case[0] == 'f1':
        for fa in FORMS:
            for a in OPV:
                t = form(a, fa)
                if t is not None:
                    arg = '[%s]' % t if case[1] in ('sum', 'mean', 'min', 'max', 'median', 'stdev') else t
                    parg = '[%s]' % form(a, 'dec') if case[1] in ('sum', 'mean', 'min', 'max', 'median', 'stdev') else form(a, 'dec')
                    same_as('%s(%s)' % (case[1], arg), '%s(%s)' % (case[1], parg), fa, rec)
    elif case[0] == 'f2':
        _, f, fa = case
        for fb in FORMS:
            for a, b in itertools.product(OPV, repeat=2):
                ta, tb = form(a, fa), form(b, fb)
                if ta is None or tb is None:
                    continue
                same_as('%s(%s, %s)' % (f, ta, tb), '%s(%s, %s)' % (f, form(a, 'dec'), form(b, 'dec')), first_form(fa, fb), rec)
    elif case[0] == 'unit':
        fa = case[1]
        for a in OPV:
            t = form(a, fa)
            if t is None or fa.startswith('str'):
                continue
            for tail in (' m', ' m to ft', ' km + 3 m', ' m * 2 s', ' m > 2 ft', ' m/s'):
                same_as(t + tail, form(a, 'dec') + tail, fa, rec)
    else:
        fa = case[1]
        c = C()
        for a in OPV:
            t = form(a, fa)
            if t is None:
                continue
            for op in ('+=', '-=', '*=', '/='):
                for b in ('3', '0.5'):
                    for m, x in (('r', t), ('d', form(a, 'dec'))):
                        calc.run(c, '%s_ = %s + 0' % (m, x))
                        calc.run(c, '%s_ %s %s' % (m, op, b))
                    p, q = calc.obs1(c, 'r_', True), calc.obs1(c, 'd_', True)
                    rec.step(6)
                    if p[0] == 'ok' and q[0] == 'ok':
                        rec.check(p[1][:2] == q[1][:2], 'representation affects the value of a variable', [t, op, b, q], p)
                        exp = intext(F(q[1][1]), fa)
                        if exp is not None:
                            rec.check(p[1][2] == exp, 'variable in another representation', [t, op, b, exp], p)
                    else:
                        rec.check(p[0] == q[0], 'representation decides over an error', [t, op, b, q], p)
        calc.run(c, 'reset()')


# ------------------------------------------------------------------ bitwise

BOPS = {'&': lambda a, b: a & b, '|': lambda a, b: a | b, '^^': lambda a, b: a ^ b}


def patterns(w):
    return [(format(n, '0%db' % k), n, k) for k in range(1, w + 1) for n in range(2 ** k)]


def g_bits(tier):
    w = 4 if tier == 'quick' else 6
    for p in patterns(w):
        yield ['pair', p[0], w]
    for a in range(-9, 17):
        yield ['int', a]
    for w in (8, 16, 31, 32, 33, 53, 63, 64, 65, 100, 200):
        yield ['wide', w]
    for op1 in BOPS:
        for op2 in BOPS:
            yield ['tree', op1, op2]


def bin_is(o, value, width, tag, rec):
    if not o.ok():
        return rec.bad('refused', tag, o.message or repr(o.exc)[:200])
    r = o.last()
    rec.check(calc.frac(r.value) == value, 'value', [tag, value], calc.res_obs(r, C(), True))
    t = calc.num_text(r.value, C())
    rec.state((str(tag), t))
    exp = ('-' if value < 0 else '') + '0b' + format(abs(value), 'b').zfill(width)
    rec.check(t == exp, 'width', [tag, exp], t)


def c_bits(case, rec):
    c = C()
    if case[0] == 'pair':
        _, s, w = case
        n, k = int(s, 2), len(s)
        A = '0b' + s
        mask = 2 ** k - 1
        for t in ('~' + A, '~(%s)' % A, "~'%s'" % A, '~~~' + A):
            o = calc.run(c, t)
            rec.step()
            bin_is(o, ~n & mask, k, t, rec)
        o = calc.run(c, 'x_ = %s\n~x_' % A)
        rec.step()
        bin_is(o, ~n & mask, k, 'variable ~' + A, rec)
        for p, m, kk in patterns(w):
            B = '0b' + p
            for op, f in BOPS.items():
                o = calc.run(c, '%s %s %s' % (A, op, B))
                rec.step()
                bin_is(o, f(n, m), max(k, kk), [A, op, B], rec)
            if kk <= 3:
                for op in ('&', '^^'):
                    o = calc.run(c, 'x_ = %s\ny_ = %s\nz_ = x_ %s y_\n~z_' % (A, B, op))
                    rec.step()
                    bin_is(o, ~BOPS[op](n, m) & (2 ** max(k, kk) - 1), max(k, kk), ['~ through variables', A, op, B], rec)
                    o = calc.run(c, '~(%s %s ~%s)' % (A, op, B))
                    rec.step()
                    bin_is(o, ~BOPS[op](n, ~m & (2 ** kk - 1)) & (2 ** max(k, kk) - 1), max(k, kk), ['nested', A, op, B], rec)
        for sh in range(0, 7):
            for op, v in (('<<', n << sh), ('>>', n >> sh)):
                o = calc.run(c, '%s %s %d' % (A, op, sh))
                rec.step()
                if rec.check(o.ok(), 'refused', [A, op, sh], o.message):
                    r = o.last()
                    rec.check(calc.frac(r.value) == v, 'shift', [A, op, sh, v], calc.res_obs(r, c, True))
                    t = calc.num_text(r.value, c)
                    rec.check(t.startswith('0b') and int(t[2:], 2) == v and len(t) - 2 >= k, 'width of a shift', [A, op, sh], t)
        calc.run(c, 'reset()')
    elif case[0] == 'int':
        a = case[1]
        texts = [str(a), prefixed(format(a, 'x') if a >= 0 else '-' + format(-a, 'x'), '0x'), "'%d'" % a]
        for ta in texts:
            for b in range(-9, 17):
                for tb in (str(b), prefixed(('-' if b < 0 else '') + format(abs(b), 'b'), '0b'), "'%d'" % b):
                    for op, f in BOPS.items():
                        o, r = one('%s %s %s' % (ta, op, tb))
                        rec.step()
                        rec.check(o.ok() and calc.frac(r.value) == f(a, b), 'two\'s complement', [ta, op, tb, f(a, b)], o.obs(c) if o.ok() else o.message)
                    if b == 0 or tb == str(b):
                        for op, f in (('<<', lambda x, y: x << y), ('>>', lambda x, y: x >> y)):
                            o, r = one('%s %s %s' % (ta, op, tb))
                            rec.step()
                            if b < 0:
                                rec.check(o.err(), 'negative shift', [ta, op, tb], o.obs(c) if o.ok() else repr(o.exc))
                            else:
                                rec.check(o.ok() and calc.frac(r.value) == f(a, b), 'shift', [ta, op, tb, f(a, b)], o.obs(c) if o.ok() else o.message)
            o, r = one('~' + ta)
            rec.step()
            if a < 0:
                rec.check(o.err(), 'negation of a negative number', '~' + ta, o.obs(c) if o.ok() else repr(o.exc))
            else:
                rec.check(o.ok() and calc.frac(r.value) == ~a & (2 ** max(1, a.bit_length()) - 1), 'negation', ['~' + ta], o.obs(c, True) if o.ok() else o.message)
            for bad in ('%s & \'a\'', '%s | [1,2] | [1]', '%s << 0.5', '%s >> 1.25', "%s ^^ 'x'"):
                o, r = one(bad % ta)
                rec.step()
                rec.check(o.err(), 'not numbers', bad % ta, o.obs(c) if o.ok() else repr(o.exc))
        o, r = one('~%d.5' % abs(a))
        rec.check(o.err(), 'negation of a fraction', a, o.obs(c) if o.ok() else None)
    elif case[0] == 'wide':
        w = case[1]
        vals = [0, 1, 2 ** w - 1, 2 ** (w - 1), int('10' * w, 2) & (2 ** w - 1), 2 ** w - 2]
        for a in vals:
            A = '0b' + format(a, '0%db' % w)
            o, r = one('~' + A)
            bin_is(o, ~a & (2 ** w - 1), w, 'wide ~ %d %x' % (w, a), rec)
            rec.step()
            for b in vals:
                B = '0b' + format(b, '0%db' % w)
                for op, f in BOPS.items():
                    o, r = one('%s %s %s' % (A, op, B))
                    rec.step()
                    bin_is(o, f(a, b), w, ['wide', w, a, op, b], rec)
            for sh in (1, w - 1, w, w + 1):
                for op, v in (('<<', a << sh), ('>>', a >> sh)):
                    o, r = one('%s %s %d' % (A, op, sh))
                    rec.step()
                    rec.check(o.ok() and calc.frac(r.value) == v, 'wide shift', [w, a, op, sh], o.obs(c) if o.ok() else o.message)
            if w >= 8:
                D_ = str(a)
                o, r = one('~' + D_)
                rec.check(o.ok() and calc.frac(r.value) == ~a & (2 ** max(1, a.bit_length()) - 1), 'wide negation of a decimal', D_, o.obs(c) if o.ok() else o.message)
    else:
        _, op1, op2 = case
        ps = patterns(3)
        prec = {'&': 1, '|': 0, '^^': 0}
        for (s1, n1, k1), (s2, n2, k2), (s3, n3, k3) in itertools.product(ps[1::2], ps, ps[::2]):
            if prec[op2] > prec[op1]:
                v = BOPS[op1](n1, BOPS[op2](n2, n3))
            else:
                v = BOPS[op2](BOPS[op1](n1, n2), n3)
            o = calc.run(c, '0b%s %s 0b%s %s 0b%s' % (s1, op1, s2, op2, s3))
            rec.step()
            bin_is(o, v, max(k1, k2, k3), [s1, op1, s2, op2, s3], rec)


SPACES = [Space('literals', g_lit, c_lit, 'every literal of up to 3 digits and 2 places over a digit set in every base, percentages and E notation; illegal digits'),
          Space('long', g_long, c_long, 'literals of 4 to 65 (89) digits in several patterns, whole and with places, in every base'),
          Space('conversions', g_conv, c_conv, 'every value in every representation and base, every pair of conversions, shown text read back'),
          Space('operations', g_ops, c_ops, 'every operator and numeric function x representations of the operands, against plain decimal operands'),
          Space('bitwise', g_bits, c_bits, 'every pair of bit patterns up to 4 (6) bits, signed integers, wide patterns, against integer arithmetic')]
