"""C16 Date arithmetic is exact and invertible.

Reference: the proleptic Gregorian calendar counted in whole days and microseconds since 0001-01-01 (own code, not datetime).
"""
from fractions import Fraction as F
import itertools
import re
import time

from mc.core import Space
from mc import calc

ASSUMPTIONS = ['a duration is rounded to the nearest microsecond', 'a result carries the offset of the date it came from, and the shortest of the documented forms that holds it',
               'texts that Python reads as dates but that are not written with two digits per part (2001-1-1) may be read or refused',
               'months and years are the mean Gregorian ones (30.436875 and 365.2425 days)', 'dates outside the years 1 to 9999 are refused', 'day and month names are English']

US = 10 ** 6
DAY = 86400 * US


def C():
    return calc.shared()


# ------------------------------------------------------------------ the reference calendar

def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


MONTHS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def mdays(y, m):
    return 29 if m == 2 and leap(y) else MONTHS[m - 1]


def days_before_year(y):
    y -= 1
    return y * 365 + y // 4 - y // 100 + y // 400


def ordinal(y, m, d):
    return days_before_year(y) + sum(mdays(y, k) for k in range(1, m)) + d - 1


LAST = ordinal(9999, 12, 31)


def civil(n):
    lo, hi = 1, 9999
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if days_before_year(mid) <= n:
            lo = mid
        else:
            hi = mid - 1
    y, rest, m = lo, n - days_before_year(lo), 1
    while rest >= mdays(y, m):
        rest -= mdays(y, m)
        m += 1
    return y, m, rest + 1


DATE = re.compile(r'(\d{4})-(\d\d)-(\d\d)(?:T(\d\d):(\d\d):(\d\d)(?:\.(\d{1,6}))?)?(Z|[+-]\d\d:?\d\d(?::?\d\d)?)?\Z', re.ASCII)


def parse(text):
    """(local microseconds since 0001-01-01, offset in seconds or None) or None"""
    m = DATE.match(text)
    if not m:
        return None
    y, mo, d = int(m.group(1)), int(m.group(2)), int(m.group(3))
    if not (1 <= y <= 9999 and 1 <= mo <= 12 and 1 <= d <= mdays(y, mo)):
        return None
    us = ordinal(y, mo, d) * DAY
    if m.group(4):
        h, mi, s = int(m.group(4)), int(m.group(5)), int(m.group(6))
        if h > 23 or mi > 59 or s > 59:
            return None
        us += (h * 3600 + mi * 60 + s) * US + int((m.group(7) or '').ljust(6, '0'))
    off = None
    if m.group(8):
        t = m.group(8)
        if t == 'Z':
            off = 0
        else:
            g = t[1:].replace(':', '').ljust(6, '0')
            if int(g[2:4]) > 59 or int(g[4:6]) > 59 or int(g[:2]) > 23:
                return None
            off = (int(g[:2]) * 3600 + int(g[2:4]) * 60 + int(g[4:6])) * (-1 if t[0] == '-' else 1)
    return us, off


def show(us, off):
    if not 0 <= us < (LAST + 1) * DAY:
        return None
    n, t = divmod(us, DAY)
    out = '%04d-%02d-%02d' % civil(n)
    if t:
        s, frac = divmod(t, US)
        out += 'T%02d:%02d:%02d' % (s // 3600, s // 60 % 60, s % 60) + ('.%06d' % frac if frac else '')
    if off is not None:
        a = abs(off)
        out += ('-' if off < 0 else '+') + '%02d%02d' % (a // 3600, a // 60 % 60) + ('%02d' % (a % 60) if a % 60 else '')
    return out


def rounded(fr):
    return round(fr)          # halves to even; halves are accepted either way below


def ev(text):
    o = calc.run(C(), text)
    if o.kind == 'crash':
        return 'crash ' + repr(o.exc)
    if o.err():
        return 'err'
    r = o.last()
    return 'none' if r is None else r


def ev_text(text):
    r = ev(text)
    return r if isinstance(r, str) else r.value if isinstance(r.value, str) and r.unit is None else repr(r.value)


def ev_num(text):
    """exact value in seconds"""
    r = ev(text)
    if isinstance(r, str):
        return r
    v, u = calc.frac(r.value), calc.unit_obs(r.unit)
    return v, u


def sums(base, delta):
    """acceptable texts for a date moved by an exact number of microseconds"""
    us, off = base
    if delta.denominator == 1:
        opts = {int(delta)}
    elif delta.denominator == 2:
        k = (delta.numerator - 1) // 2
        opts = {k, k + 1}
    else:
        opts = {round(delta)}
    return {show(us + d, off) or 'err' for d in opts}


# ------------------------------------------------------------------ 1. every day of the calendar

YEARS = [1, 2, 3, 4, 5, 8, 99, 100, 101, 200, 300, 399, 400, 401, 999, 1000, 1001, 1200, 1500, 1581, 1582, 1583, 1600, 1699, 1700, 1800, 1899, 1900, 1904, 1969, 1970, 1999, 2000, 2001, 2004, 2023, 2024, 2037, 2038, 2099, 2100, 2101, 2400,
         4000, 8000, 9996, 9998, 9999]
NAMES = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']


def g_cal(tier):
    for y in (YEARS if tier == 'quick' else range(1, 10000)):
        yield [y, tier]


def c_cal(case, rec):
    y, tier = case
    first = '%04d-01-01' % y
    for m in range(1, 13):
        for d in range(1, mdays(y, m) + 1):
            n = ordinal(y, m, d)
            text = '%04d-%02d-%02d' % (y, m, d)
            nxt = show((n + 1) * DAY, None) or 'err'
            rec.step(2)
            rec.check(ev_text("'%s' +%% 1 day" % text) == nxt, 'the next day', [text, nxt], ev_text("'%s' +%% 1 day" % text))
            if nxt != 'err':
                got = ev_text("'%s' -%% 24 hours" % nxt)
                rec.check(got == text, 'the day before', [nxt, text], got)
            got = ev_num("datedifference('%s', '%s', days)" % (first, text))
            k = n - days_before_year(y)
            rec.check(not isinstance(got, str) and got[0] == k, 'days since the first of the year', [text, k], got)
            got = ev_text("dateformat('%s')" % text)
            got2 = re.sub(r'-0*(\d+)$', r'-\1', got)
            w = '%s, %02d-%s-%d' % (NAMES[n % 7], d, MON[m - 1], y)
            rec.check(got2 == w, 'weekday and names', [text, w], got)
            rec.step(2)
            rec.state(text)
        # days that do not exist
        for d in (0, mdays(y, m) + 1, 32, 99):
            text = '%04d-%02d-%02d' % (y, m, d)
            if parse(text) is None:
                rec.step()
                rec.check(ev_text("'%s' +%% 1 s" % text) == 'err', 'a day that does not exist', text, ev_text("'%s' +%% 1 s" % text))
    for m in (0, 13, 99):
        text = '%04d-%02d-01' % (y, m)
        rec.step()
        rec.check(ev_text("'%s' +%% 1 s" % text) == 'err', 'a month that does not exist', text, ev_text("'%s' +%% 1 s" % text))


# ------------------------------------------------------------------ 2. durations

SECOND = {'s': 1, 'seconds': 1, 'second': 1, 'minutes': 60, 'minute': 60, 'hours': 3600, 'hour': 3600, 'h': 3600, 'days': 86400, 'day': 86400, 'weeks': 604800, 'months': 2629746, 'years': 31556952, 'yr': 31556952,
          'milliseconds': F(1, 1000), 'ms': F(1, 1000), 'microseconds': F(1, US), 'nanoseconds': F(1, 10 ** 9), 'picoseconds': F(1, 10 ** 12)}
DATES = ['2012-01-02', '2012-02-28', '2012-02-29', '2011-02-28', '2011-03-01', '1900-02-28', '2000-02-29', '1999-12-31', '2000-01-01T00:00:00.000001', '1999-12-31T23:59:59', '1999-12-31T23:59:59.999999', '2012-06-30T12:34:56',
         '2012-06-30T12:34:56.5', '2012-06-30T12:34:56.789012', '1970-01-01', '0001-01-01', '0001-01-01T00:00:00.000001', '9999-12-31', '9999-12-31T23:59:59.999999', '0999-12-31T23:59:59', '1000-01-01', '2012-01-02+0100', '2012-01-02T11:45:56-0430',
         '2012-01-02T11:45:56.123456+1256', '2012-03-01T00:00:00Z', '2012-02-29T23:00:00+14:00', '0001-01-01+0530', '9999-12-31T23:59:59-1200', '0999-05-05T05:05:05.000005-0005', '2012-01-02T11:45:56+010030', '0012-01-02T11:45:56+01:00:30', '2020-12-31T23:59:60'[:-2] + '59',
         '1582-10-04', '1582-10-15', '1752-09-02', '2038-01-19T03:14:07', '2038-01-19T03:14:08', '2012-01-02T00:00:00', '2012-01-02T00:00:00.000000', '2012-01-02T10:00:00.1']
AMOUNTS = ['0', '1', '-1', '2', '0.5', '-0.5', '23', '59', '60', '61', '-60', '365', '366', '365.25', '1000', '-1000', '86399', '86400', '86401', '0.000001', '-0.000001', '0.999999', '1000000.000001', '123456789.123456', '-123456789.123456', '(1/3)', '(-2/7)',
           '3155695200.000001', '-31556952000.654321', '315537897599.999999', '99999999999', '1E3', '1.5E1', '0b101', '0x3C', '50%', "'2.25'", 'pi', '0.0000005', '0.0000015', '1E12', '-1E20', '1E100']


def amount(text):
    o = calc.run(C(), text if text[0] != "'" else text.strip("'"))
    return calc.frac(o.last().value)


def g_dur(tier):
    units = ['s', 'minutes', 'hours', 'days', 'weeks', 'months', 'years', 'microseconds', 'ms'] if tier == 'quick' else sorted(SECOND)
    for d in DATES:
        for u in units:
            yield [d, u]


def c_dur(case, rec):
    d, u = case
    base = parse(d)
    assert base
    calc.run(C(), 'reset()')
    for a in AMOUNTS:
        fr = amount(a) * SECOND[u] * US
        dur = '%s %s' % (a, u) if a[0] != '(' else '%s %s' % (a, u)
        calc.run(C(), "d_ = '%s'\nt_ = %s" % (d, dur))
        for op, fn, x in (('+%', 'dateadd', fr), ('-%', 'datesubtract', -fr)):
            want = sums(base, x)
            rec.step(3)
            forms = ["'%s' %s %s" % (d, op, dur), "%s('%s', %s)" % (fn, d, dur), 'd_ %s t_' % op]
            got = [ev_text(f) for f in forms]
            if not rec.check(all(g in want for g in got), 'a date moved by a duration', [forms[0], sorted(want)], got):
                continue
            g = got[0]
            rec.state((d, u, a, op, g))
            if g == 'err':
                continue
            rec.check(parse(g) is not None, 'the result is a date', forms[0], g)
            inv = '-%' if op == '+%' else '+%'
            back = ev_text("('%s' %s %s) %s %s" % (d, op, dur, inv, dur))
            rec.check(back == show(*base), 'moved there and back', [d, op, dur, show(*base)], back)
            # the difference is what was added
            diff = ev_num("datedifference('%s', '%s')" % (d, g))
            exact = abs(parse(g)[0] - base[0])
            rec.check(not isinstance(diff, str) and diff[0] * US == exact, 'the difference', [d, g, str(F(exact, US))], diff)
            rec.step(2)


# ------------------------------------------------------------------ 3. differences

def instant(d):
    us, off = parse(d)
    return us - (off or 0) * US


def g_diff(tier):
    for d in DATES:
        yield [d, tier]


def c_diff(case, rec):
    d, tier = case
    us1, off1 = parse(d)
    units = ['seconds', 'hours', 'days', 'weeks', 'microseconds', 'years', 'ms', 'months', 'minutes', 'nanoseconds'] if tier == 'quick' else sorted(SECOND)
    for e in DATES:
        us2, off2 = parse(e)
        got = ev_num("datedifference('%s', '%s')" % (d, e))
        rec.step()
        if (off1 is None) != (off2 is None):
            rec.check(got == 'err', 'dates with and without time zone do not compare', [d, e], got)
            continue
        exact = F(abs(instant(d) - instant(e)), US)
        if not rec.check(not isinstance(got, str) and got == (exact, (('seconds', '1'),)), 'the difference of two dates', [d, e, str(exact)], got):
            continue
        rec.state((d, e, exact))
        for u in units:
            got = ev_num("datedifference('%s', '%s', %s)" % (d, e, u))
            rec.step()
            w = exact / SECOND[u]
            rec.check(not isinstance(got, str) and (got[0] == w or abs(got[0] - w) <= abs(w) / 10 ** 90), 'the difference in a unit', [d, e, u, str(w)], got)
        early, late = (d, e) if instant(d) <= instant(e) else (e, d)
        got = ev_text("'%s' +%% datedifference('%s', '%s')" % (early, d, e))
        base = parse(early)
        w = show(base[0] + instant(late) - instant(early), base[1]) or 'err'
        rec.check(got == w, 'the difference added to the earlier date', [d, e, w], got)
        got = ev_text("'%s' -%% datedifference('%s', '%s', hours)" % (late, d, e))
        base = parse(late)
        w = show(base[0] - instant(late) + instant(early), base[1]) or 'err'
        rec.check(got == w, 'the difference in hours taken from the later date', [d, e, w], got)
        rec.step(2)


# ------------------------------------------------------------------ 4. sequences

STEPS = [('+%', '1 day'), ('-%', '1 day'), ('+%', '1 month'), ('-%', '36 hours'), ('+%', '0.000001 s'), ('-%', '1 year'), ('+%', '100 years'), ('-%', '1 microsecond'), ('+%', '90 minutes')]
STARTS = ['2012-02-28', '1999-12-31T23:59:59.999999', '2012-02-29T00:00:00+0530', '0001-01-01']


def step_us(dur):
    a, u = dur.split(' ')
    u = u if u in SECOND else u + 's'
    return amount(a) * SECOND[u] * US


def g_seq(tier):
    depth = 3 if tier == 'quick' else 4
    for s in STARTS:
        for k in itertools.product(range(len(STEPS)), repeat=1):
            yield [s, list(k), depth]


def c_seq(case, rec):
    start, head, depth = case
    base = parse(start)
    inc = [int(step_us(d)) * (1 if o == '+%' else -1) for o, d in STEPS]
    for n in range(depth):
        for rest in itertools.product(range(len(STEPS)), repeat=n):
            seq = head + list(rest)
            us, ok = base[0], True
            for k in seq:
                us += inc[k]
                ok = ok and show(us, base[1]) is not None
            w = show(us, base[1]) if ok else 'err'
            text = "'%s'" % start + ''.join(' %s %s' % STEPS[k] for k in seq)
            got = ev_text(text)
            rec.step()
            rec.check(got == w, 'durations one after another', [text, w], got)
            rec.state((start, tuple(seq), got))
            # the same through a variable, statement by statement
            if n < 2 or depth > 3:
                o = calc.run(C(), 'reset()')
                o = calc.run(C(), "d_ = '%s'\n" % start + '\n'.join('d_ = d_ %s %s' % STEPS[k] for k in seq) + '\nd_')
                got = 'err' if o.err() else o.last().value
                rec.check(got == w, 'durations statement by statement', [text, w], got)
                rec.step()


# ------------------------------------------------------------------ 5. units and representations of one duration

SAME = {'1 day': ['24 hours', '1440 minutes', '86400 s', '86400000 ms', '86400000000 microseconds', '(1/7) weeks', '0x18 hours', '2400% hours', '86.4E3 s', '0b11000 hours', "'24' hours", '1 day s h^-1 hour s^-1', '24 hours'],
        '1 week': ['7 days', '168 hours', '604800 seconds'],
        '1 year': ['12 months', '365.2425 days', '31556952 s', '8765.82 hours'],
        '1 month': ['30.436875 days', '(1/12) years'],
        '1 microsecond': ['0.000001 s', '1000 nanoseconds', '1E-6 s', '0.001 ms', '(1/1000000) s'],
        '0 s': ['0 years', '0 ms', '-0 days']}
NOT_TIMES = ['1', '0', 'true', '5 m', '1 s^2', '1 s^-1', '3 hours^2', '1 m/s', '20 \u00b0C', "'a'", "'1 day'", '[m]', '1/0', '1 hertz', '50%', '1 m s', "''", '{1}', 's', 'hours']
NOT_DATES = ['', 'x', '2012', '2012-01', '20120102', '2012-13-01', '2012-02-30', '2011-02-29', '1900-02-29', '2012-00-10', '2012-01-00', '2012/01/02', '02-01-2012', '0000-01-01', '10000-01-01', '-2012-01-02', '2012-01-02T', '2012-01-02T11', '2012-01-02T11:45',
             '2012-01-02T24:00:00', '2012-01-02T11:60:00', '2012-01-02T11:59:60', '2012-01-02T11:59:61', '2012-01-02T11:45:56.', '2012-01-02T11:45:56.1234567', '2012-01-02 11:45:56', '2012-01-02T11:45:56+1', '2012-01-02T11:45:56+2400', '2012-01-02T11:45:56+0160',
             ' 2012-01-02', '2012-01-02 ', '2012-01-02x', 'x2012-01-02', '2012-01-02T11:45:56 +0100', '2012-01-02+01', '11:45:56', 'today', 'now', '2012-01-02ZZ', '12-01-02', '2012-01-02T-1:00:00', '2012-01-02T11:45:56,5']
VALUES = ['5', '20120102', 'true', '[1]', '3 m', '1/0', '{1}', 'nosuch', '5 s']


def g_forms(tier):
    for k in SAME:
        yield ['same', k]
    for d in NOT_DATES + VALUES:
        yield ['notdate', d]
    for t in NOT_TIMES:
        yield ['nottime', t]
    for base in ('2012-02-29', '2012-02-29T11:45:56', '2012-02-29T11:45:56.123456+0100') + (() if tier == 'quick' else ('0999-12-31T23:59:59.999999-1200', '2012-02-29+0100')):
        for i in range(len(base) + 1):
            yield ['edit', base, i]
    yield ['now']


def c_forms(case, rec):
    kind = case[0]
    if kind == 'same':
        k = case[1]
        for d in DATES:
            for op in ('+%', '-%'):
                w = ev_text("'%s' %s %s" % (d, op, k))
                for s in SAME[k]:
                    got = ev_text("'%s' %s %s" % (d, op, s))
                    rec.step()
                    rec.check(got == w, 'one duration in two units', [d, op, k, s, w], got)
                    rec.state((d, op, k, s))
    elif kind == 'notdate':
        d = case[1]
        q = "'%s'" % d if d in NOT_DATES else '(%s)' % d
        for text in ('%s +%% 1 day', '%s -%% 1 day', 'dateadd(%s, 1 day)', 'datesubtract(%s, 1 day)', "datedifference(%s, '2012-01-02')", "datedifference('2012-01-02', %s)", 'dateformat(%s)', 'dateformat(%s +%% 0 s)'):
            r = ev(text % q)
            rec.step()
            arr = not isinstance(r, str) and isinstance(r.value, list)
            rec.check(r == 'err' or arr and d[0] == '[' and all(isinstance(x.value, Exception) for x in r.value), 'a value that is not a date', text % q, getattr(r, 'value', r))
            rec.state((text, d))
    elif kind == 'nottime':
        for text in ("'2012-01-02' +%% (%s)", "'2012-01-02' -%% (%s)", "dateadd('2012-01-02', %s)", "datesubtract('2012-01-02T01:02:03', %s)", "datesubtract('2012-01-02T01:02:03+0100', (%s))"):
            r = ev(text % case[1])
            rec.step()
            arr = not isinstance(r, str) and isinstance(r.value, list)
            rec.check(isinstance(r, str) and r == 'err' or arr and case[1][0] == '[' and all(isinstance(x.value, Exception) for x in r.value), 'a duration that is not a time', text % case[1], getattr(r, 'value', r))
            rec.state((text, case[1]))
        if case[1] == 'hours':
            for u in ('m', 's^2', 's^-1', 'kg', '5 s', '5', "'s'", 'true', 'm/s', '2012'):
                got = ev("datedifference('2012-01-02', '2012-01-05', %s)" % u)
                rec.step()
                rec.check(isinstance(got, str) and got == 'err', 'a difference in something that is not a unit of time', u, getattr(got, 'value', got))
    elif kind == 'edit':
        # every text one edit away from a date: refused, or read as the calendar says
        _, base, i = case
        texts = set()
        if i < len(base):
            texts.add(base[:i] + base[i + 1:])
        for ch in '0123456789-T:.+Z x':
            texts.add(base[:i] + ch + base[i:])
            if i < len(base):
                texts.add(base[:i] + ch + base[i + 1:])
        for t in sorted(texts):
            p = parse(t)
            got = ev_text("'%s' +%% 0 s" % t)
            rec.step()
            if p is not None:
                rec.check(got == show(*p), 'a text that is a date', [t, show(*p)], got)
            else:
                q = parse(got) if got != 'err' else None
                # leniently read texts only: a part with one digit in place of two
                loose = re.fullmatch(r'(\d{4})-(\d{1,2}| \d)-(\d{1,2}| \d)(T(\d{1,2}):(\d{1,2}):(\d{1,2})(\.\d{1,6})?)?(Z|[+-]\d\d:?\d\d(:?\d\d)?)?(\.\d{1,6})?', t)
                rec.check(got == 'err' or bool(loose and q is not None), 'a text that is not a date', t, got)
                if got != 'err' and loose:
                    nums = [int(x) for x in re.findall(r'\d+', got.split('T')[0])][:3]
                    rec.check(nums[:1] == [int(loose.group(1))] and nums[1] == int(loose.group(2)), 'a leniently read date', t, got)
            rec.state((t, got))
    else:
        for _ in range(3):
            t0 = time.time()
            got = ev_text('now()')
            p = parse(got)
            rec.step()
            rec.check(p is not None and p[1] is None, 'now', 'a date', got)
            a = ev_text("now() +% 1 day")
            rec.check(parse(a) is not None, 'now is a date', 'a date', a)
            lt = time.localtime(t0)
            us = (ordinal(lt.tm_year, lt.tm_mon, lt.tm_mday) * 86400 + lt.tm_hour * 3600 + lt.tm_min * 60 + lt.tm_sec) * US
            rec.check(p is not None and -2 * US <= p[0] - us <= 30 * US, 'now is now', show(us, None), got)
            d = ev_num("datedifference(now(), '%s')" % got)
            rec.check(not isinstance(d, str) and 0 <= d[0] < 30, 'now goes on', got, d)
            rec.state(('now', len(got)))


# ------------------------------------------------------------------ 6. how dates are written for reading

def g_fmt(tier):
    for d in DATES:
        yield d


def c_fmt(d, rec):
    us, off = parse(d)
    for k in range(-40, 41):
        u = us + k * DAY * 11 + (k % 3) * 3600 * US + (k % 5 == 0) * 7
        s = show(u, off)
        if s is None:
            continue
        n, t = divmod(u, DAY)
        y, m, dd = civil(n)
        w = '%s, %02d-%s-%d' % (NAMES[n % 7], dd, MON[m - 1], y)
        if t:
            sec, frac = divmod(t, US)
            w += ' at %02d:%02d:%02d' % (sec // 3600, sec // 60 % 60, sec % 60) + ('.%06d' % frac if frac else '')
        z = re.search(r'(?<=\d)[+-]\d{4,6}$', s) if off is not None else None
        if off is not None:
            w += ' (%s)' % z.group(0)
        got = ev_text("dateformat('%s')" % s)
        got2 = re.sub(r'(-[A-Z][a-z][a-z])-0*(\d+)', r'\1-\2', got)
        rec.step()
        rec.check(got2 == w, 'a date written for reading', [s, w], got)
        rec.state(got)
        # in arrays, and from a variable
        got = ev("dateformat(['%s', '%s'])" % (s, s))
        rec.check(not isinstance(got, str) and [x.value for x in got.value] == [ev_text("dateformat('%s')" % s)] * 2, 'an array of dates', s, getattr(got, 'value', got))
        rec.step()


SPACES = [Space('calendar', g_cal, c_cal, 'every day of the chosen years (thorough: of the years 1 to 9999): next day, day before, day of the year, weekday, days that do not exist'),
          Space('durations', g_dur, c_dur, 'all dates x amounts x units of time, there and back, as operator, function and from variables'),
          Space('differences', g_diff, c_diff, 'all pairs of dates, in every unit, added to and taken from the other'),
          Space('sequences', g_seq, c_seq, 'all sequences of up to 3 (thorough 4) additions and subtractions'),
          Space('forms', g_forms, c_forms, 'one duration in all its units, every text one edit away from a date, values that are not dates or times'),
          Space('reading', g_fmt, c_fmt, 'dates written for reading, around every date')]
