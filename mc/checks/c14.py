"""C14 Strings are preserved exactly and string operations are consistent.

Reference: own definitions over sequences of characters (scanning, sets, code point order); Python's re module for the regular
expression operations, which the property defines as the standard engine.
"""
import itertools
import re

from mc.core import Space
from mc import calc

ASSUMPTIONS = ['upper and lower case of a character are those of the Unicode tables of the Python interpreter',
               'find counts from zero and gives -1 for a text that does not occur; the end of substr is included and a negative end counts from the end',
               'the fourth argument of regexsub is the number of matches to replace, zero for all']


def C():
    return calc.shared()


def esc(s):
    return "'" + s.replace('\\', '\\\\').replace("'", "\\'") + "'"


def ev(text):
    """('s', text) / ('n', number) / ('b', ..) / ('a', ...) / 'err'"""
    o = calc.run(C(), text)
    if o.kind == 'crash':
        return 'crash %r' % (o.exc,)
    if o.err():
        return 'err'
    r = o.last()
    return plain(r)


def plain(r):
    v = r.value
    if r.unit is not None:
        return ('unit', str(r.unit))
    if isinstance(v, bool) or isinstance(v, str):
        return v
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, Exception):
        return 'elem-err'
    if hasattr(v, 'num'):
        f = calc.frac(v)
        return int(f) if f.denominator == 1 else f
    return ('?', type(v).__name__, str(v))


def want(rec, text, expected, what):
    got = ev(text)
    rec.step()
    same = got == expected and type(got) is type(expected)
    return rec.check(same, what, [text, expected], got)


# ------------------------------------------------------------------ literals

ALPHA = ['a', "'", '\\', '\n', '#', ' ', ';', '"', '{', '(', ']', ',', '\t', '\u00e9', '\U0001f600', '\r', '%', '$', '1', '\x00']
HARD = ["'", '\\', '\n', '#', 'a', ' ', '}']


def g_lit(tier):
    yield ['', 0]
    for a in ALPHA:
        yield [a, 2 if tier == 'quick' else 3]
    for n in range(1, 2):
        for a, b in itertools.product(HARD, repeat=2):
            yield [a + b, -3 if tier == 'quick' else -5]


def c_lit(case, rec):
    head, more = case
    pool = ALPHA if more >= 0 else HARD
    for k in range(abs(more) + 1):
        for t in itertools.product(pool, repeat=k):
            s = head + ''.join(t)
            lit = esc(s)
            want(rec, lit, s, 'literal')
            rec.state(s)
            if k + len(head) <= 3 and head + ''.join(t)[:1] != '':
                want(rec, 'length(%s)' % lit, len(s), 'length of a literal')
                want(rec, '[%s, (%s), %s]' % (lit, lit, lit), [s, s, s], 'literals in an array')
                want(rec, '%s ==$ %s' % (lit, lit), True, 'literal equal to itself')
                o = calc.run(C(), 'x_ = %s\nx_ +$ %s\n7' % (lit, lit))
                rec.step()
                rs = [plain(r) for r in o.results if r.has_result()] if o.ok() else o.message
                rec.check(rs == [s, s + s, 7], 'literals in a program', [lit, s], rs)
                o = calc.run(C(), 'f_ = {%s}\n@f_()' % lit)
                rec.check(o.ok() and plain(o.last()) == s, 'literal in a function', lit, plain(o.last()) if o.ok() else o.message)
                calc.run(C(), 'reset()')
                # not closed, or closed too early
                o = calc.run(C(), lit[:-1])
                rec.step()
                rec.check(o.kind == 'parse', 'text without an end', lit[:-1], o.kind)
                # needless escapes stand for the character
                alt = "'" + ''.join('\\' + ch for ch in s) + "'"
                want(rec, alt, s, 'every character escaped')


# ------------------------------------------------------------------ functions

def strings(alpha, n):
    return [''.join(t) for k in range(n + 1) for t in itertools.product(alpha, repeat=k)]


def find(s, t):
    for i in range(len(s) - len(t) + 1):
        if all(s[i + j] == t[j] for j in range(len(t))):
            return i
    return -1


def split(s, t):
    out, cur, i = [], '', 0
    while i < len(s):
        if s[i:i + len(t)] == t:
            out.append(cur)
            cur = ''
            i += len(t)
        else:
            cur += s[i]
            i += 1
    return out + [cur]


def replace(s, t, r):
    if t == '':
        return r + ''.join(ch + r for ch in s)
    out, first = '', True
    for p in split(s, t):
        out += p if first else r + p
        first = False
    return out


def lstrip(s, cs):
    while s and s[0] in cs:
        s = s[1:]
    return s


def rstrip(s, cs):
    while s and s[-1] in cs:
        s = s[:-1]
    return s


def substr(s, a, b=None):
    n = len(s)
    out = ''
    lo = a if a >= 0 else max(n + a, 0)
    hi = n - 1 if b is None else b if b >= 0 else n + b
    for i in range(n):
        if lo <= i <= hi:
            out += s[i]
    return out


def g_fun(tier):
    n = 4 if tier == 'quick' else 5
    for s in strings('ab', n):
        yield ['two', s]
    for s in strings('aB\u00df', 3) + strings('1.2', 3) + strings('a\u00e9\U0001f600', 2) + ["'", '\\', '\n', 'a\nb', '#x', '[1]', '$', 'a,b', '\u0130', '\u01c5', 'i\u0307', ' a ', '\t']:
        yield ['mix', s]
    for s in strings('ab', 3) + ['abcdef', '12345', '\u00e9b\n\\']:
        yield ['sub', s]
    for v in NUMS:
        yield ['num', v]
    yield ['bool']
    yield ['bad']


NUMS = ['0', '7', '-12', '1.50', '115', '0x1F', '0b0101', '50%', '1E3', '(1/3)', '12345678901234567890', '(2 m)', '-0.5', '(10 km)', '3z12']


def c_fun(case, rec):
    kind = case[0]
    if kind == 'two':
        s = case[1]
        L = esc(s)
        others = strings('ab', 3)
        for t in others:
            T = esc(t)
            want(rec, 'find(%s, %s)' % (L, T), find(s, t), 'find')
            want(rec, 'lstrip(%s, %s)' % (L, T), lstrip(s, t), 'lstrip')
            want(rec, 'rstrip(%s, %s)' % (L, T), rstrip(s, t), 'rstrip')
            want(rec, 'strip(%s, %s)' % (L, T), rstrip(lstrip(s, t), t), 'strip')
            want(rec, '%s +$ %s' % (L, T), s + t, 'concatenation')
            for r in ('', 'b', 'aa', 'xa'):
                want(rec, 'replace(%s, %s, %s)' % (L, T, esc(r)), replace(s, t, r), 'replace')
            if t:
                want(rec, 'split(%s, %s)' % (L, T), split(s, t), 'split')
                want(rec, 'join(split(%s, %s), %s)' % (L, T, T), s, 'split and join')
                want(rec, 'count(split(%s, %s))' % (L, T), len(split(s, t)), 'number of parts')
            else:
                want(rec, 'split(%s, %s)' % (L, T), 'err', 'split on nothing')
            rec.state((s, t))
        for k in range(-2, 5):
            want(rec, '%s *$ %d' % (L, k), s * max(k, 0), 'repeating')
    elif kind == 'mix':
        s = case[1]
        L = esc(s)
        up = ''.join(ch.upper() for ch in s)
        want(rec, 'length(%s)' % L, len(s), 'length')
        want(rec, 'upper(%s)' % L, up, 'upper')
        low = s.lower()
        want(rec, 'lower(%s)' % L, low, 'lower')
        want(rec, 'lower(lower(%s))' % L, low.lower(), 'lower twice')
        want(rec, 'length(%s +$ %s)' % (L, L), 2 * len(s), 'length of a concatenation')
        want(rec, "%s +$ '' ==$ %s" % (L, L), True, 'concatenation with nothing')
        for t in ('a', '.', '1', '\n', ',', 'B', '\u00e9', '\\', "'", '\u00df'):
            T = esc(t)
            want(rec, 'find(%s, %s)' % (L, T), find(s, t), 'find')
            want(rec, 'split(%s, %s)' % (L, T), split(s, t), 'split')
            want(rec, 'join(split(%s, %s), %s)' % (L, T, T), s, 'split and join')
            want(rec, 'replace(%s, %s, %s)' % (L, T, L), replace(s, t, s), 'replace')
            want(rec, 'strip(%s, %s)' % (L, esc(t + 'a')), rstrip(lstrip(s, t + 'a'), t + 'a'), 'strip')
        for k in (0, 1, 3):
            want(rec, '%s *$ %d' % (L, k), s * k, 'repeating')
        for parts in itertools.product(['', 'a', s], repeat=3):
            arr = '[%s]' % ', '.join(map(esc, parts))
            want(rec, 'join(%s)' % arr, ''.join(parts), 'join with nothing')
            for d in (',', '', s):
                want(rec, 'join(%s, %s)' % (arr, esc(d)), parts[0] + d + parts[1] + d + parts[2], 'join')
        rec.state(s)
    elif kind == 'sub':
        s = case[1]
        L = esc(s)
        n = len(s)
        for a in range(-n - 2, n + 3):
            want(rec, 'substr(%s, %d)' % (L, a), substr(s, a), 'substr')
            for b in range(-n - 1, n + 3):
                want(rec, 'substr(%s, %d, %d)' % (L, a, b), substr(s, a, b) if n + b >= 0 or b >= 0 else substr(s, a, b), 'substr with an end')
            want(rec, 'substr(%s, 0x%x)' % (L, abs(a)), substr(s, abs(a)), 'substr from a hexadecimal position')
        for i in range(n):
            want(rec, 'substr(%s, %d, %d)' % (L, i, i), s[i], 'one character')
            want(rec, 'substr(%s, 0, %d) +$ substr(%s, %d)' % (L, i, L, i + 1), s, 'cut and joined')
        rec.state(s)
    elif kind == 'num':
        v = case[1]
        o = calc.run(C(), v)
        t = o.last().value.to_string(C())              # the displayed text (C02, C13)
        T = esc(t)
        for f in ('length(%s)', 'upper(%s)', 'lower(%s)', '%s +$ %s', "'x' +$ %s", "%s +$ 'x'", "find(%s, '1')", 'find(%s, %s)', 'find(\'a115.5\', %s)', "replace(%s, '1', 'z')", "replace('a1150', %s, 'z')",
                  "replace('zz', 'z', %s)", 'strip(%s, %s)', "lstrip(%s, '01')", "lstrip('0070', %s)", "rstrip('0070', %s)", "strip('0070', %s)", "rstrip(%s, 0)", "split(%s, '.')", "split('1157115', %s)", 'split(%s, %s)',
                  "join(['a', %s])", "join([%s, %s], ',')", "join(['a', 'b', 'c'], %s)", 'substr(%s, 1)', 'substr(%s, 0, -2)', 'substr(%s, -2, -1)', '%s *$ 2', "%s <$ '2'", "%s ==$ %s", "%s !=$ 'x'", "%s >=~ 'A'",
                  "'0x1f' ==~ %s", "%s =~ '1'", "'115' !~ %s", "regexget(%s, '.')", "regexcount(%s, '.')", "regexsub(%s, '.', 'x')", "regexsplit(%s, '\\\\.')", "regexsub('a', 'a', %s)"):
            k = f.count('%s')
            a = ev(f % ((v,) * k))
            b = ev(f % ((T,) * k))
            rec.step(2)
            rec.check(a == b, 'a number takes part as its displayed text', [f % ((v,) * k), b], a)
        rec.check(ev('length(%s)' % v) == len(t), 'length of a number', [v, len(t)], ev('length(%s)' % v))
        rec.check(ev("%s +$ ''" % v) == t, 'text of a number', [v, t], ev("%s +$ ''" % v))
        rec.state((v, t))
    elif kind == 'bool':
        for v, t in (('true', 'True'), ('false', 'False'), ('1 < 2', 'True')):
            want(rec, '(%s) +$ 1' % v, t + '1', 'text of a boolean')
            want(rec, 'length(%s)' % v, len(t), 'text of a boolean')
            want(rec, 'upper(%s)' % v, t.upper(), 'text of a boolean')
    else:
        for f in ('length(%s)', 'upper(%s)', "'a' +$ %s", "%s +$ 'a'", "'a' ==$ %s", "find(%s, 'a')", "find('a', %s)", "replace('a', %s, 'b')", "join(['a', 'b'], %s)", "'a' =~ %s", "%s *$ 2", "split(%s, 'a')",
                  "substr(%s, 1)", "strip('a', %s)", "regexcount(%s, 'a')", "%s <~ 'a'"):
            for v in ('nosuch', '1/0', '(1/0)', "('a' + 1)"):
                want(rec, f % v, 'err', 'an operand that has no value')
        for t in ("'a' *$ 'b'", "'a' *$ nosuch", "substr('abc', 'x')", "substr('abc')", "substr()", "length()", "length('a', 'b')", "join('a', 'b')", "join([1, 1/0])", "find('a')", "upper('a', 'b')", "split('a')",
                  "replace('a', 'b')", "'a' + 'b'", "'a' - 1", "'a' < 'b'", "-'a'", "not 'a'", "'a' and true", "'abc", "'", "'\\'", "substr('abc', 1, 'x')"):
            want(rec, t, 'err', 'not a string operation')


# ------------------------------------------------------------------ comparisons

CS = strings('abB', 2) + ['abc', 'abd', 'a b', ' ', '  ', '!', '_', '0', '9', '10', '1.0', 'Z', 'z', '[', '\u00c9', '\u00e9', '\u00df', '\u1e9e', 'SS', 'ss', '\U0001f600', '\n', 'a\n', "'", '\\', '\ufffd', '\u0130', 'i',
                          'I', 'K', '\u212a', 'k', 'True', 'true', '']
OPS = ['<', '>', '<=', '>=', '==', '!=']


def order(s, t):
    for a, b in zip(s, t):
        if a != b:
            return -1 if ord(a) < ord(b) else 1
    return (len(s) > len(t)) - (len(s) < len(t))


def verdict(op, c):
    return {'<': c < 0, '>': c > 0, '<=': c <= 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[op]


def g_cmp(tier):
    for s in sorted(set(CS)):
        yield s


def c_cmp(s, rec):
    for t in sorted(set(CS)):
        a, b = order(s, t), order(s.lower(), t.lower())
        for op in OPS:
            want(rec, '%s %s$ %s' % (esc(s), op, esc(t)), verdict(op, a), 'comparison')
            want(rec, '%s %s~ %s' % (esc(s), op, esc(t)), verdict(op, b), 'comparison without regard to case')
        rec.state((a, b))


# ------------------------------------------------------------------ regular expressions

ATOMS = ['a', 'b', '.', '[ab]', '[^a]', '\\d', '\\.', '^', '$', '(a)', '(?:ab)', '(a|b)', '(b)?', '\\n', "'", '\\b', '\\\\']
QUANT = ['', '*', '+', '?', '{2}']
TEXTS = ['', 'a', 'b', 'ab', 'ba', 'aab', 'abab', 'bbb', '1', 'a1b2', '.', 'a.b', '\n', 'a\nb', "it's", '\\', 'A', '\u00e9', 'a b']


def g_re(tier):
    for a in ATOMS:
        for q in QUANT:
            yield [a + q, 1 if tier == 'quick' else 2]
    for p in ['[', '(', ')', '*', '(?P<x>a)', '(?i)A', 'a|', '|', '', '(a)(b)', '(a)(b)?', '((a)b)', '(?=a)', '\\1', '(a)\\1', '[a', 'a{2', 'a{1,2}', '(?x) a', '\\Z', '\\q', '(?:', 'a**']:
        yield [p, 0]


def c_re(case, rec):
    head, more = case
    pats = [head]
    if more:
        pats += [head + b for b in ATOMS] + [head + b + q for b in ('a', '.', '(b)') for q in QUANT[1:]]
    if more > 1:
        pats += [head + b + c for b in ATOMS for c in ATOMS]
    for p in pats:
        P = esc(p)
        try:
            rx = re.compile(p)
        except re.error:
            rx = None
        for s in TEXTS:
            S = esc(s)
            if rx is None:
                for f in ("%s =~ %s", "%s !~ %s", 'regexget(%s, %s)', 'regexsplit(%s, %s)', "regexsub(%s, %s, 'x')", 'regexcount(%s, %s)', 'regexget(%s, %s, 1)'):
                    want(rec, f % (S, P), 'err', 'not a regular expression')
                continue
            ms = list(rx.finditer(s))
            hits = [m.group(0) if rx.groups == 0 else (m.group(1) or '') if rx.groups == 1 else [g or '' for g in m.groups()] for m in ms]
            want(rec, '%s =~ %s' % (S, P), len(ms) > 0, 'matches')
            want(rec, '%s !~ %s' % (S, P), len(ms) == 0, 'does not match')
            want(rec, 'regexcount(%s, %s)' % (S, P), len(ms), 'number of matches')
            want(rec, 'regexget(%s, %s)' % (S, P), hits, 'all matches')
            for i in range(-1, len(hits) + 2):
                if i < 3 or i >= len(hits):
                    want(rec, 'regexget(%s, %s, %d)' % (S, P, i), hits[i - 1] if 1 <= i <= len(hits) else 'err', 'one match')
            sp = [x if x is not None else x for x in rx.split(s)]
            if None not in sp:
                want(rec, 'regexsplit(%s, %s)' % (S, P), sp, 'split on a pattern')
            for r in ('', 'x', '<\\g<0>>'):
                want(rec, 'regexsub(%s, %s, %s)' % (S, P, esc(r)), rx.sub(r, s), 'replace a pattern')
            for k in (0, 1, 2):
                want(rec, "regexsub(%s, %s, 'x', %d)" % (S, P, k), rx.sub('x', s, count=k), 'replace some matches')
            rec.state((p, s, hits))


# ------------------------------------------------------------------ histories on a string variable

H = [("x_ = x_ +$ 'a'", lambda x: x + 'a'), ("x_ = 'b' +$ x_", lambda x: 'b' + x), ('x_ = upper(x_)', lambda x: x.upper()), ('x_ = lower(x_)', lambda x: x.lower()),
     ("x_ = replace(x_, 'a', '\\'')", lambda x: replace(x, 'a', "'")), ('x_ = x_ *$ 2', lambda x: x * 2), ('x_ = substr(x_, 1)', lambda x: substr(x, 1)), ('x_ = substr(x_, 0, -2)', lambda x: substr(x, 0, -2)),
     ("x_ = join(reverse(split(x_, 'b')), '\n')", lambda x: '\n'.join(split(x, 'b')[::-1])), ("x_ = strip(x_, 'aA')", lambda x: rstrip(lstrip(x, 'aA'), 'aA')),
     ("x_ = regexsub(x_, '[aA]', '#')", lambda x: re.sub('[aA]', '#', x)), ("x_ = x_ ==$ 'a' then 'b' else x_", lambda x: 'b' if x == 'a' else x), ('x_ = length(x_) +$ x_', lambda x: str(len(x)) + x),
     ("x_ = replace(x_, '\\'', '\\\\')", lambda x: replace(x, "'", '\\')), ("x_ = join([x_, x_], ' ; ')", lambda x: x + ' ; ' + x)]
STARTS = ['', 'a', 'Ab', "'", '\\\n', '12', 'b#a']


def g_hist(tier):
    for s in STARTS:
        for i in range(len(H)):
            for j in range(len(H)) if tier != 'quick' else [None]:
                yield [s, i, j]


def c_hist(case, rec):
    s, i, j = case
    d = 2
    heads = [i] if j is None else [i, j]
    for rest in itertools.product(range(len(H)), repeat=d):
        calc.run(C(), 'reset()')
        calc.run(C(), 'x_ = %s\ny_ = x_' % esc(s))
        x = s
        for k in heads + list(rest):
            text, f = H[k]
            x = f(x)
            if not want(rec, text, x, 'step of a history'):
                return
        o = calc.run(C(), 'x_')
        rec.check(o.ok() and o.last().value == x, 'variable after the history', x, o.obs())
        o = calc.run(C(), 'y_')
        rec.check(o.ok() and o.last().value == s, 'other variable after the history', s, o.obs())
        rec.state(x)
        rec.trace()


SPACES = [Space('literals', g_lit, c_lit, 'every text up to 3 (4) characters over 20 kinds of character, up to 5 (7) over the 7 critical ones, as a literal in every place'),
          Space('functions', g_fun, c_fun, 'every string function and operator over all short strings, arguments and positions; numbers and booleans as text'),
          Space('comparisons', g_cmp, c_cmp, 'all pairs of strings under the 12 comparisons against one total order'),
          Space('regex', g_re, c_re, 'all patterns of 2 (3) atoms with quantifiers on all texts, against the standard engine'),
          Space('histories', g_hist, c_hist, 'all histories of 3 (4) string operations on a variable')]
