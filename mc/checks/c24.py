"""C24 Feature options change the notation and nothing else.

Every expression is written with placeholders for the symbols the options name.  Reference: the expression in the default notation,
in a calculator nobody configured; for dates, Python's own strftime.
"""
import datetime
import itertools
import os
import re
import shutil
import tempfile

from mc.core import Space
from mc import calc
from modularcalculator.modularcalculator import ModularCalculator

ASSUMPTIONS = ['symbols are chosen that do not begin like an operator or another symbol in use',
               'an option is set in the feature_options of the calculator, at any time']

A, S, N, T, F, E = 'arrays.arrays', 'strings.strings', 'structure.terminator', 'nonfunctional.comments', 'structure.functionpointers', 'numerical.expnumbers'
# placeholder -> feature, option, default, other symbols
OPTIONS = {
    'O': (A, 'Open', '[', ['[[', 'list:', '?(', '$[']),
    'C': (A, 'Close', ']', [']]', ':end', '?)', ']$']),
    'P': (A, 'Param', ',', [';', ';;', '?', '?,']),
    'R': (A, 'Range', '..', ['...', ':', '::', '?-']),
    'S': (A, 'Step', 'step', ['by', 'every', ':::', 'every2']),
    'Q': (S, 'Symbol', "'", ['"', '`', '\u00ab', '$']),
    'X': (S, 'Escape Char', '\\', ['!', '^', '~', 'z']),
    'N': (N, 'Symbol', '\n', [';', ';;', '!.', ' then_ ']),
    'T': (T, 'Symbol', '#', ['//', ';#', '(*', '##', 'rem ']),
    'F': (F, 'Symbol', '@', ['@@', '$', '?.', 'call ']),
    'E': (E, 'Symbol', 'E', ['T', 'x10^', '*^', 'ee', '(+)', 'e$']),
}
DEFAULT = {k: v[2] for k, v in OPTIONS.items()}
TEMPLATES = [
    # arrays
    '«O»1«P»2«P»3«C»', '«O» 1 «P» 2 «P» 3 «C»', '«O»1«P»2«C» * 3', '«O»«O»1«P»2«C»«P»3«C»', '«O»«O»1«C»«P»«O»2«P»3«C»«C»', '«O»1«R»5«C»', '«O» 1 «R» 7 «S» 3 «C»', '«O»7«R»1 «S» -2«C»',
    '«O»1«R»3«P»10«R»20 «S» 5«P»7«C»', 'sum(«O»1«P»2«P»3«C»)', 'element(«O»5«P»6«P»7«C», 2)', 'concat(«O»1«P»2«C», «O»3«C»)', '«O»1 + 1«P»(2 * 3)«C»', '«O»max(1, 2)«P»3«C»',
    'a = «O»1«P»2«C»«N»a + 1', '«O»1«R»max(2, 3)«C» + «O»10«R»12«C»', '«O»1 m«P»2 cm«C»', '«O»true«P»false«C»', '(«O»1«P»2«C»)', '«O»1«P»2«C» == «O»1«P»3«C»', '«O»(1)«R»(3)«C»',
    'b_y = 3«N»«O»1«R»b_y«C»', 'stepper = 4«N»«O»1«R»stepper«C»', '«O»1«P»1 / 0«C»', '«O»1«P»«P»2«C»', '«O»1«P»2', '«O»«C»', '«O»1«R»«C»', '«O»1«P»2«C»«C»', '«P»1',
    # strings
    '«Q»abc«Q»', '«Q»«Q»', '«Q»a b  c«Q»', '«Q»a«X»«Q»b«Q»', '«Q»«X»«X»«Q»', '«Q»a«X»«X»«X»«Q»«Q»', '«Q»ab«Q» +$ «Q»cd«Q»', 'upper(«Q»abc«Q»)', 'length(«Q»a«X»«Q»b«Q»)', '«Q»ab«Q» *$ 3', '«O»«Q»a«Q»«P»«Q»b«Q»«C»',
    's = «Q»x«Q»«N»s +$ s', 'split(«Q»a,b«Q», «Q»,«Q»)', "«Q»5«Q» + 1", '«Q»ab«Q» ==$ «Q»ab«Q»', 'replace(«Q»abc«Q», «Q»b«Q», «Q»-«Q»)', '«Q»abc', '«Q»abc«X»«Q»', '«Q»',
    # statements
    '1«N»2', '1 «N» 2 «N» 3', 'x = 3«N»x * 2«N»x + 1', '«N»«N»4«N»', 'f = {PARAM1 + 1«N»PARAM1 * 2}«N»«F»f(4)', '1 / 0«N»2', '3«N»1 / 0«N»2', 'x = 3«N»1 +', '1«N»)',
    '(4«N»', 'f = {x = 2«N»x + PARAM1}«N»x = 7«N»«F»f(1) + x', '1 + 2 «T» note\n«N»3', 'x = 5«N»x ||= 6«N»x',
    # comments
    '1 + 2 «T» note', '1 + 2 «T»note', '«T» note\n«N»4', '(1 + «T» in the middle\n2)', '«O»1«P» «T» first\n2«C»', 'f = {PARAM1 «T» it\n«N»PARAM1 * 2}«N»«F»f(5)', '«T»', '1 «T» «T» «Q»', '«Q»a «T» b«Q»', '«T» 1 / 0',
    # function pointers
    'f = {PARAM1 + PARAM2}«N»«F»f(1, 2)', 'f = {PARAM1 * 3}«N»(«F»f(2)) + «F»f(1)', 'f = {PARAM1}«N»g_ = {«F»f(PARAM1) * 2}«N»«F»g_(4)', 'f = {PARAM1 + 1}«N»«O»«F»f(1)«P»«F»f(2)«C»', '«F»nosuch(1)', 'f = {1}«N»«F»f(1',
    'f = {PARAM1 * 2}«N»h_ = {PARAM1 * 3}«N»k_ = «O»f«P»h_«C»«N»«F»k_(4)', 'f = {PARAM1 +$ «Q»y«Q»}«N»«F»f(«Q»a«Q»)', 'max( «F»f(1), 2)',
    # scientific numbers
    '2«E»3', '2«E»-3', '-1.5«E»2', '2«E»3 + 1', '1 + 2«E»3', 'scientific(1234.5)', 'scientific(2000, 1) * 3', 'scientific(0)', '«Q»2«E»3«Q» + 1', '2«E»3 m', '«O»1«E»1«P»2«C»', '«Q»n«Q» +$ 2«E»3', '(1«E»1) ^ 2',
    '1«E»2 to cm', 'floor(1.234«E»1, 1)', '«O»1«E»0«R»3«C»', 'max(1«E»3, 5)', '2«E»3 as hexadecimal', '5 as scientific', '1«E»2 m to cm', '12«E»400', '1«E»2«E»3',
]
USES = [sorted(set(re.findall('«(.)»', t))) for t in TEMPLATES]
# one expression whose meaning needs the default symbol
OLD = {'O': '[1]', 'C': '«O»1]', 'P': '«O»1,2«C»', 'R': '«O»1..2«C»', 'S': '«O»1 «R» 3 step 1«C»', 'Q': "'a'", 'N': '1\n2', 'T': '1 # note', 'F': 'f = {1}«N»@f(1)', 'E': '2E3'}


def write(template, symbols):
    return re.sub('«(.)»', lambda m: symbols[m.group(1)], template)


def plain():
    return calc._cache.setdefault('c24plain', None) or calc._cache.__setitem__('c24plain', ModularCalculator('Computing')) or calc._cache['c24plain']


def subject():
    if calc._cache.get('c24') is None:
        calc._cache['c24'] = ModularCalculator('Computing')
    return calc._cache['c24']


def configure(c, symbols):
    for k, v in symbols.items():
        c.feature_options[OPTIONS[k][0]][OPTIONS[k][1]] = v


_want = {}


def outcome(c, text):
    """kind, results with their text, and how the statements are made up; functions are named by nothing"""
    calc.run(c, 'reset()')
    o = calc.run(c, text)
    rs = o.obs(c, True)[1]
    return [o.kind, rs, [r.expression for r in o.results] if o.ok() else None, o]


def translated(obs, symbols):
    """an observation in the default notation, as it would be with other symbols"""
    if isinstance(obs, (list, tuple)):
        if len(obs) == 3 and obs[0] == 'n':
            return ('n', obs[1], scientific(obs[2], symbols))
        if len(obs) == 2 and obs[0] == 's':
            return ('s', ''.join({"'": symbols['Q'], '\\': symbols['X'], '#': symbols['T']}.get(ch, ch) for ch in scientific(obs[1], symbols)))
        if len(obs) == 2 and obs[0] == 'f':
            return ('f',)
        return tuple(translated(x, symbols) for x in obs)
    return obs


def scientific(text, symbols):
    return re.sub(r'(\d)E(?=-?\d)', lambda m: m.group(1) + symbols['E'], text)


def compare(c, k, symbols, rec):
    t = TEMPLATES[k]
    if k not in _want:
        _want[k] = outcome(plain(), write(t, DEFAULT))[:2]
    kind, results = _want[k]
    text = write(t, symbols)
    got = outcome(c, text)
    rec.step()
    if got[0] == 'crash':
        rec.bad('crash', [text, symbols], repr(got[3].exc)[:200])
        return False
    # what cannot be read in one notation may be readable but fail in another
    want = [kind, translated(results, symbols)] if kind == 'ok' else ['err', translated(results, symbols) if got[0] == kind else None]
    seen = [got[0], translated(got[1], DEFAULT)] if got[0] == 'ok' else ['err', translated(got[1], DEFAULT) if got[0] == kind else None]
    ok = rec.check(seen == want, 'an expression in another notation', [symbols, text, want], got[:2])
    if got[2] is not None:
        ok = rec.check(''.join(got[2]) == text, 'the statements make up the text', text, got[2]) and ok
    rec.state((k, sorted(symbols.items())))
    return ok


# --- one option, and all pairs ------------------------------------------------------------------------------------


def settings():
    for k, (_, _, _, others) in OPTIONS.items():
        for o in others:
            yield {k: o}


def clash(s):
    """symbols of different options that begin alike are told apart by nothing"""
    vals = [(k, v.strip(' ')) for k, v in s.items()]
    for (k1, a), (k2, b) in itertools.permutations(vals, 2):
        if a.startswith(b) and not (k1 == 'X' or k2 == 'X') and not ({k1, k2} == {'E', 'O'} and a[0] == '('):
            return True
        if k1 in 'XQ' and k2 in 'QET' and k1 != k2 and a in b:
            return True
    return False


def gen_single(tier):
    for s in settings():
        yield s


def case_single(s, rec):
    c = subject()
    symbols = dict(DEFAULT, **s)
    try:
        configure(c, s)
        for k in range(len(TEMPLATES)):
            if not compare(c, k, symbols, rec):
                return
        for k in s:
            if k in OLD and s[k] not in (OLD[k],) and not s[k].startswith(DEFAULT[k]):
                text = write(OLD[k], symbols)
                o = outcome(c, text)
                ref = outcome(plain(), write(OLD[k], DEFAULT))
                rec.step()
                rec.check(o[0] in ('parse', 'exec') and ref[0] == 'ok', 'the former symbol means nothing any more', [s, text], [o[0], o[1]])
        rec.trace()
    finally:
        configure(c, DEFAULT)


def gen_pairs(tier):
    singles = list(settings())
    for a, b in itertools.combinations(singles, 2):
        (ka, va), (kb, vb) = list(a.items())[0], list(b.items())[0]
        if ka == kb or clash({**DEFAULT, **a, **b}):
            continue
        if tier == 'quick' and (OPTIONS[ka][3].index(va) + OPTIONS[kb][3].index(vb)) % 2:
            continue
        yield dict(a, **b)


def case_pairs(s, rec):
    """Two options at once, on the expressions that use both, and one each that uses only one of them"""
    c = subject()
    symbols = dict(DEFAULT, **s)
    try:
        configure(c, s)
        for k, uses in enumerate(USES):
            if set(s) & set(uses) and (set(s) <= set(uses) or k % 3 == 0):
                if not compare(c, k, symbols, rec):
                    return
        rec.trace()
    finally:
        configure(c, DEFAULT)


def gen_all(tier):
    """All options at once: every choice per option in rotation"""
    ks = list(OPTIONS)
    n = 0
    for shift in itertools.product(range(5), repeat=3):
        s = {k: OPTIONS[k][3][(shift[0] + i * shift[1] + i * i * shift[2]) % len(OPTIONS[k][3])] for i, k in enumerate(ks)}
        if not clash(s):
            yield s


def case_all(s, rec):
    c = subject()
    try:
        configure(c, s)
        for k in range(len(TEMPLATES)):
            if not compare(c, k, dict(s), rec):
                return
        rec.trace()
    finally:
        configure(c, DEFAULT)


# --- options changed during a session -----------------------------------------------------------------------------

HSET = [{'E': 'T'}, {'E': '*^'}, {'E': 'E'}, {'O': '[[', 'C': ']]'}, {'O': '[', 'C': ']'}, {'P': ';'}, {'P': ','}, {'Q': '"'}, {'Q': "'"}, {'N': ';;'}, {'N': '\n'}, {'T': '//'}, {'T': '#'}, {'F': '$'}, {'F': '@'}]
HEXPR = [TEMPLATES.index(t) for t in ('2«E»3 + 1', 'scientific(1234.5)', '«O»1«P»2«C» * 3', 'f = {PARAM1 + 1«N»PARAM1 * 2}«N»«F»f(4)', '«Q»ab«Q» +$ «Q»cd«Q»', '1 + 2 «T» note\n«N»3', '1 / 0«N»2', '«O»1«P»1 / 0«C»')]


def gen_hist(tier):
    for k in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for h in itertools.product(range(len(HSET)), repeat=k):
            yield list(h)


def case_hist(hist, rec):
    """Options set one after the other, with expressions after each; variables kept from before go on as they were"""
    c = subject()
    symbols = dict(DEFAULT)
    try:
        for i in hist:
            configure(c, HSET[i])
            symbols.update(HSET[i])
            for k in HEXPR:
                if not compare(c, k, symbols, rec):
                    return
        rec.trace()
    finally:
        configure(c, DEFAULT)


KEEP = [('n_ = 2«E»3', 'n_ + 1'), ('s_ = «Q»a«X»«Q»b«Q»', 's_'), ('a_ = «O»1«P»2«C»', 'a_ * 2'), ('f = {PARAM1 + 1«N»PARAM1 * 2}', '«F»f(4)'), ('g_ = {«O»PARAM1«P»2«E»1«C» «T» note\n}', '«F»g_(4)'), ('d_ = «Q»2«E»3«Q»', 'd_ +$ «Q»«Q»'),
        ('h_ = «O»{PARAM1 +$ «Q»x«Q»}«P»{3}«C»', '«F»h_(1)')]


def gen_keep(tier):
    for s in settings():
        for k in range(len(KEEP)):
            yield [s, k]


def case_keep(case, rec):
    """What was stored in one notation is used in another"""
    s, k = case
    c = subject()
    new = dict(DEFAULT, **s)
    try:
        for first, then in ((DEFAULT, new), (new, DEFAULT), (new, new)):
            configure(c, first)
            calc.run(c, 'reset()')
            o1 = calc.run(c, write(KEEP[k][0], first))
            configure(c, then)
            o2 = calc.run(c, write(KEEP[k][1], then))
            r = plain()
            calc.run(r, 'reset()')
            calc.run(r, KEEP[k][0] and write(KEEP[k][0], DEFAULT))
            w = calc.run(r, write(KEEP[k][1], DEFAULT))
            rec.step(2)
            # a number reads in the notation of the moment; a string keeps its characters
            want = ['ok', translated(w.obs(r, True)[1], first if k in (1, 5) else then)]
            rec.check(o1.ok() and [o2.kind, translated(o2.obs(c, True)[1], DEFAULT)] == want, 'stored in one notation, used in another', [s, KEEP[k], want], [o1.kind, o2.kind, o2.obs(c, True)[1]])
            rec.state((k, sorted(s.items()), first is DEFAULT, then is DEFAULT))
        rec.trace()
    finally:
        configure(c, DEFAULT)


# --- external functions: the file is in the notation of the calculator ---------------------------------------------

EXT = [('PARAM1 + 1', ['4'], True), ('«T»INPUT number\nPARAM1 * 2', ['4'], True), ('«T»INPUT number number\nPARAM1 * PARAM2', ['4', '5'], True), ('«T»INPUT number:distance\nPARAM1 * 2', ['4 m'], True),
       ('«T»INPUT number:distance\nPARAM1', ['4'], False), ('«T»INPUT array\nsum(PARAM1)', ['«O»1«P»2«C»'], True), ('«T»INPUT array\n1', ['5'], False), ('x = PARAM1«N»x * x', ['3'], True), ('«T» note\n«N»PARAM1 «T» it', ['3'], True),
       ('«O»PARAM1«P»2«C»', ['3'], True), ('«Q»a«Q» +$ PARAM1', ['«Q»b«Q»'], True), ('2«E»3 + PARAM1', ['1'], True), ('f = {PARAM1 + 1}«N»«F»f(PARAM1)', ['6'], True)]


def gen_ext(tier):
    yield {}
    for s in settings():
        yield s


def case_ext(s, rec):
    c = subject()
    symbols = dict(DEFAULT, **s)
    d = tempfile.mkdtemp(prefix='mc-c24-')
    try:
        path = os.path.join(d, 'f')
        obs = []
        for calcu, sy in ((plain(), DEFAULT), (c, symbols)):
            configure(calcu, sy)
            seen = []
            for body, args, ok in EXT:
                with open(path, 'w') as fh:
                    fh.write(write(body, sy))
                calc.run(calcu, 'reset()')
                calc.run(calcu, write('p_ = «Q»', sy) + path.replace(sy['X'], sy['X'] * 2) + write('«Q»', sy))
                o = calc.run(calcu, write('«F»p_(%s)' % ', '.join(args), sy))
                rec.step()
                if o.kind == 'crash':
                    rec.bad('crash', [s, body], repr(o.exc)[:200])
                    return
                rec.check(o.ok() == ok, 'an external function in the notation of the calculator', [s, body, args, ok], [o.kind, o.message])
                seen.append([o.kind, o.obs(calcu, True)[1]])
            obs.append(seen)
        for (body, args, ok), w, g in zip(EXT, *obs):
            rec.check([w[0], translated(w[1], symbols)] == [g[0], translated(g[1], DEFAULT)], 'an external function gives the same in any notation', [s, body, w], g)
            rec.state((body, sorted(s.items())))
        rec.trace()
    finally:
        configure(c, DEFAULT)
        shutil.rmtree(d, ignore_errors=True)


# --- dates --------------------------------------------------------------------------------------------------------

TZ = datetime.timezone(datetime.timedelta(hours=2))
FMT = {
    'default': ('%Y-%m-%d', '%Y-%m-%dT%H:%M:%S', '%Y-%m-%dT%H:%M:%S.%f', '%Y-%m-%d%z', '%Y-%m-%dT%H:%M:%S%z', '%Y-%m-%dT%H:%M:%S.%f%z'),
    'british': ('%d/%m/%Y', '%d/%m/%Y %H:%M:%S', '%d/%m/%Y %H:%M:%S.%f', '%d/%m/%Y %z', '%d/%m/%Y %H:%M:%S %z', '%d/%m/%Y %H:%M:%S.%f %z'),
    'american': ('%m/%d/%Y', '%m/%d/%Y %I:%M:%S %p', '%m/%d/%Y %I:%M:%S.%f %p', '%m/%d/%Y %z', '%m/%d/%Y %I:%M:%S %p %z', '%m/%d/%Y %I:%M:%S.%f %p %z'),
    'names': ('%d %B %Y', '%H:%M:%S on %d %B %Y', '%H:%M:%S.%f on %d %B %Y', '%d %B %Y UTC%z', '%H:%M:%S on %d %B %Y UTC%z', '%H:%M:%S.%f on %d %B %Y UTC%z'),
    'short': ('%y%m%d', '%y%m%d_%H%M%S', '%y%m%d_%H%M%S_%f', '%y%m%dUTC%z', '%y%m%d_%H%M%SUTC%z', '%y%m%d_%H%M%S_%fUTC%z'),
    'yearday': ('%Y.%j', '%Y.%j %H-%M-%S', '%Y.%j %H-%M-%S,%f', '%Y.%j %z', '%Y.%j %H-%M-%S %z', '%Y.%j %H-%M-%S,%f %z'),
}
KINDS = ['Date', 'Date + Time', 'Date + Hi Res Time', 'Date + Timezone', 'Date + Time + Timezone', 'Date + Hi Res Time + Timezone']
PADS = {'default': ['0>10', '0>19', '0>26', '0>15', '0>24', '0>31']}
HUMAN = {'default': None, 'plain': ['%d.%m.%Y', '%d.%m.%Y %H:%M', '%d.%m.%Y %H:%M:%S.%f', '%d.%m.%Y %z', '%d.%m.%Y %H:%M %z', '%H:%M:%S.%f %z'], 'padded': ['%j', '%H', '%f', '%z', '%M%z', '%f%z']}
HDEFAULT = ['%A, %d-%b-%Y', '%A, %d-%b-%Y at %H:%M:%S', '%A, %d-%b-%Y at %H:%M:%S.%f', '%A, %d-%b-%Y (%z)', '%A, %d-%b-%Y at %H:%M:%S (%z)', '%A, %d-%b-%Y at %H:%M:%S.%f (%z)']
MOMENTS = [datetime.datetime(*a) for a in ((2020, 2, 28), (2021, 12, 31), (2020, 1, 5), (2020, 2, 28, 23, 59, 59), (2019, 3, 4, 12, 0, 0), (2020, 2, 28, 23, 59, 59, 999999), (2001, 11, 10, 1, 2, 3, 40))]
MOMENTS += [m.replace(tzinfo=TZ) for m in MOMENTS]
SHIFTS = [('1 day', datetime.timedelta(1)), ('1 second', datetime.timedelta(seconds=1)), ('0.000001 seconds', datetime.timedelta(microseconds=1)), ('36 hours', datetime.timedelta(hours=36)), ('366 days', datetime.timedelta(366)), ('0 s', datetime.timedelta(0))]


def which(dt):
    return (3 if dt.tzinfo else 0) + (0 if not (dt.hour or dt.minute or dt.second or dt.microsecond) else 2 if dt.microsecond else 1)


def shown(dt, fmt):
    return dt.strftime(FMT[fmt][which(dt)])


def use_dates(c, fmt, human):
    opts = c.feature_options['dates.dates']
    for i, k in enumerate(KINDS):
        opts[k + ' Format'] = FMT[fmt][i]
        opts[k + ' Padding'] = PADS['default'][i] if fmt == 'default' else ''
        h = c.feature_options['dates.datefunctions']
        h['Human Readable ' + k + ' Format'] = (HUMAN[human] or HDEFAULT)[i]
        h['Human Readable ' + k + ' Padding'] = '*>12' if human == 'padded' else ''


def option_names(c):
    return sorted(c.feature_options['dates.dates']) == sorted(k + s for k in KINDS for s in (' Format', ' Padding'))


def gen_dates(tier):
    for fmt in FMT:
        for human in HUMAN:
            yield [fmt, human]


def case_dates(case, rec):
    fmt, human = case
    c = subject()
    saved = {k: dict(c.feature_options[k]) for k in ('dates.dates', 'dates.datefunctions')}
    try:
        if not rec.check(sorted(saved['dates.dates']) == sorted(k + s for k in KINDS for s in (' Format', ' Padding')), 'options of dates', KINDS, sorted(saved['dates.dates'])):
            return
        use_dates(c, fmt, human)

        def get(text):
            rec.step()
            o = calc.run(c, text)
            return ('s', o.results[-1].value) if o.ok() and isinstance(o.results[-1].value, str) else (o.kind, o.obs(c, True)[1] if o.ok() else o.message)
        for m in MOMENTS:
            t = shown(m, fmt)
            h = format(m.strftime((HUMAN[human] or HDEFAULT)[which(m)]), '*>12' if human == 'padded' else '')
            rec.check(get("dateformat('%s')" % t) == ('s', h), 'a date for people', [case, t, h], get("dateformat('%s')" % t))
            for text, d in SHIFTS:
                w = ('s', shown(m + d, fmt))
                for e in ("dateadd('%s', %s)" % (t, text), "'%s' +%% %s" % (t, text), "datesubtract('%s', -%s)" % (shown(m, fmt), text)):
                    g = get(e)
                    rec.check(g == w, 'dates in another form', [case, e, w], g)
                w = ('s', shown(m - d, fmt))
                for e in ("datesubtract('%s', %s)" % (t, text), "'%s' -%% %s" % (t, text)):
                    g = get(e)
                    rec.check(g == w, 'dates in another form', [case, e, w], g)
            for n in MOMENTS:
                e = "datedifference('%s', '%s')" % (t, shown(n, fmt))
                o = calc.run(c, e)
                rec.step()
                if (m.tzinfo is None) != (n.tzinfo is None):
                    rec.check(o.kind == 'exec', 'dates with and without time zone', e, o.kind)
                else:
                    us = abs(m - n) // datetime.timedelta(microseconds=1)
                    rec.check(o.ok() and calc.frac(o.results[-1].value) * 1000000 == us, 'time between two dates', [case, e, us], o.obs(c))
            if fmt != 'default':
                old = m.strftime(FMT['default'][which(m)])
                o = calc.run(c, "dateadd('%s', 1 day)" % old)
                rec.step()
                rec.check(o.kind == 'exec', 'the former form means nothing any more', [case, old], o.obs(c))
            rec.state((fmt, human, str(m)))
        rec.trace()
    finally:
        for k, v in saved.items():
            c.feature_options[k].clear()
            c.feature_options[k].update(v)


SPACES = [
    Space('single', gen_single, case_single, 'every option with every other symbol, on all expressions, against the default notation'),
    Space('pairs', gen_pairs, case_pairs, 'all pairs of options with other symbols (quick: half of them)'),
    Space('all', gen_all, case_all, 'all options changed at once, in rotations of their symbols'),
    Space('histories', gen_hist, case_hist, 'all histories of changes of options up to the length, with expressions after each'),
    Space('kept', gen_keep, case_keep, 'values and functions stored in one notation and used in another'),
    Space('external', gen_ext, case_ext, 'external functions written in the notation of the calculator'),
    Space('dates', gen_dates, case_dates, 'all sets of date forms and forms for people, on all dates and shifts'),
]
