"""C04 White space, comments and redundant parentheses do not change meaning.

Every gap of every program of the corpus x every filler, every pair of gaps, every operand x every wrapping; the reference
is the same program in canonical layout.
"""
import itertools

from mc.core import Space
from mc import calc, corpus

ASSUMPTIONS = ['a name glued to an opening bracket is one token (a name followed by a bracket is otherwise a product)',
               'line breaks are white space only inside round and square brackets']

BAD_COMMENTS = ['#', '# plain', "# ' ( [ { \\", '# x = 99', '# ) ] } 1/0 @f(', '#\t##']
LINE_FILL = [' ', '  ', '\t', ' \t  ']
BRACKET_FILL = LINE_FILL + ['\n', ' \n\n ', '#c\n', " # ' ) ] } x = 9\n", '\r\n']


def observe(text, preset='Computing', setup=corpus.SETUP):
    c = calc.shared(preset)
    calc.run(c, 'reset()')
    calc.run(c, setup)
    o = calc.run(c, text)
    state = calc.state_of(c)
    # what the functions now defined do (their own text includes its layout)
    fs = tuple(calc.obs1(c, '@%s(7)' % f, True) for f in ('f', 'fn'))
    return strip_f((o.obs(c, True), state, fs))


def strip_f(o):
    def f(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'f':
                return ('f',)      # the text of a function
            return tuple(f(y) for y in x)
        return x
    return f(o)


_base = {}


def base(toks):
    k = tuple(toks)
    if k not in _base:
        _base[k] = observe(' '.join(toks))
    return _base[k]


def fillers(toks, kinds, i, wide=True):
    f = list(BRACKET_FILL if kinds[i] == 'bracket' else LINE_FILL)
    if not wide:
        f = [' ', '\n', '#c\n'] if kinds[i] == 'bracket' else [' ', '\t']
    if corpus.can_join(toks[i], toks[i + 1]):
        f.append('')
    return f


def gen_single(tier):
    for s in corpus.STATEMENTS:
        toks = s.split(' ')
        kinds = corpus.gaps(toks)
        for i in range(len(kinds)):
            for f in fillers(toks, kinds, i):
                if f != ' ':
                    yield [s, {str(i): f}]
        for lead, trail in itertools.product(['', ' ', '\t', '\n', '#c\n', ' \n \n'], ['', ' ', '\t\t', '\n', ' # c', ' #x=1\n', '\n\n#c\n ']):
            yield [s, {'lead': lead, 'trail': trail}]


def gen_pairs(tier):
    for s in corpus.STATEMENTS:
        toks = s.split(' ')
        kinds = corpus.gaps(toks)
        for i, j in itertools.combinations(range(len(kinds)), 2):
            if tier == 'quick' and j - i > 2 and i > 0:
                continue
            for f in itertools.product(fillers(toks, kinds, i, tier != 'quick'), fillers(toks, kinds, j, tier != 'quick')):
                if f != (' ', ' '):
                    yield [s, {str(i): f[0], str(j): f[1]}]


def gen_uniform(tier):
    for s in corpus.STATEMENTS:
        toks = s.split(' ')
        kinds = corpus.gaps(toks)
        for f in LINE_FILL:
            yield [s, {str(i): f for i in range(len(kinds))}]
        for f in BRACKET_FILL:
            yield [s, {str(i): f for i in range(len(kinds)) if kinds[i] == 'bracket'}]
        yield [s, {str(i): '' for i in range(len(kinds)) if corpus.can_join(toks[i], toks[i + 1])}]


def build(toks, fill):
    t = fill.get('lead', '') + toks[0]
    for i in range(1, len(toks)):
        t += fill.get(str(i - 1), ' ') + toks[i]
    return t + fill.get('trail', '')


def case_fill(case, rec):
    toks = case[0].split(' ')
    want = base(toks)
    text = build(toks, case[1])
    got = observe(text)
    rec.step(2)
    rec.trace()
    rec.state((case[0], want))
    rec.check(got == want, 'layout %r' % text, want, got)


def operands(toks):
    """(start, end) of every complete operand: a literal or name, or a bracketed group with the name in front of it"""
    out = []
    stack = []
    for i, t in enumerate(toks):
        if opens_(t):
            stack.append(i)
        elif corpus.closes(t) and stack:
            out.append((stack.pop(), i + 1))
        elif is_operand(t):
            out.append((i, i + 1))
    return out


def opens_(t):
    return corpus.opens(t)


WORDOPS = {'and', 'or', 'not', 'xor', 'then', 'else', 'to', 'as', 'step'}


def is_operand(t):
    return t != '..' and (t[0].isalnum() or t[0] in "'._" or (t[0] == '-' and len(t) > 1 and t[1].isdigit())) and t not in WORDOPS


def gen_parens(tier):
    for s in corpus.STATEMENTS:
        toks = s.split(' ')
        ops = operands(toks)
        for a, b in ops:
            for n in (1, 2) if tier == 'quick' else (1, 2, 3):
                yield [s, [[a, b]] * n]
        for p, q in itertools.combinations(ops, 2):
            yield [s, [list(p), list(q)]]
        yield [s, [list(o) for o in ops]]
        yield [s, [[0, len(toks)]]]


def case_parens(case, rec):
    toks = case[0].split(' ')
    want = base(toks)
    if want[0][0] == 'parse' or (case[1] == [[0, len(toks)]] and want[0][0] != 'ok'):
        return     # wrapping a malformed text is not wrapping a complete operand
    pre = [''] * (len(toks) + 1)
    post = [''] * (len(toks) + 1)
    for a, b in case[1]:
        pre[a] += '( '
        post[b] += ' )'
    text = ' '.join(pre[i] + toks[i] + post[i + 1] for i in range(len(toks)))
    got = observe(text)
    rec.step()
    rec.trace()
    rec.state((case[0], want))
    if len(case[1]) == 1 and case[1][0] == [0, len(toks)] and got[0][0] == 'ok':
        pass
    rec.check(got == want, 'redundant parentheses %r' % text, want, got)


def gen_programs(tier):
    fill = ['\n', '\n\n', ' \n', '\n \t\n', '\n# c\n', ' # x = 99\n', "\n#' ( [ {\n\n"]
    for k, p in enumerate(corpus.PROGRAMS):
        n = len(p) - 1
        if n <= 3:
            for f in itertools.product(fill, repeat=n):
                yield [k, list(f), '', '']
        for f in fill:
            for lead in ['', '\n', '# c\n', ' \n#c\n\n']:
                for trail in ['', '\n', ' #c', '\n# c\n', '\n \n']:
                    yield [k, [f] * n, lead, trail]


def results_obs(o, c):
    return (o.kind, tuple(calc.res_obs(r, c, True) for r in (o.results or []) if r.has_result()))


def case_programs(case, rec):
    k, fill, lead, trail = case
    p = corpus.PROGRAMS[k]
    want = observe('\n'.join(p))
    text = lead + p[0] + ''.join(f + s for f, s in zip(fill, p[1:])) + trail
    got = observe(text)
    rec.step(2)
    rec.trace()
    rec.state((k, want))
    rec.check(got == want, 'program layout %r' % text, want, got)


ATOMS = ["'", '"', '(', ')', '[', ']', '{', '}', '\\', '#', ',', 'x=9', '\t', '+', '@f(', '1/0', ' ', '\r', 'é', '..', '=']


def gen_comment(tier):
    for n in (0, 1, 2) if tier == 'quick' else (0, 1, 2, 3):
        for a in itertools.product(ATOMS, repeat=n):
            yield ''.join(a)


def case_comment(case, rec):
    for text, ref in [('x = 5 #%s\nx + y', 'x = 5\nx + y'), ('#%s\nx', 'x'), ('x\n#%s', 'x'),
                      ('max(1, #%s\n x, 3)', 'max(1, x, 3)'), ('[1, 2#%s\n]', '[1, 2]'), ('(1#%s\n+ 2)', '(1+ 2)'),
                      ('x = {\nPARAM1#%s\n}\n@x(3)', 'x = {\nPARAM1\n}\n@x(3)'), ('1 + #%s\n 2', '1 + 2')]:
        want, got = observe(ref), observe(text % case)
        rec.step(2)
        rec.trace()
        rec.state((text, want))
        rec.check(got == want, 'comment %r in %r' % (case, text), want, got)


# --- white space neither joins nor splits tokens -------------------------------------------------------------------------

SPLITS = ['12', '1.5', '0x1F', '0b10', '0o17', '3z12', '1E5', 'true', 'abs(-3)', "length('ab')", '1 <= 2', '1 >= 2', '3 == 3', '1 != 2',
          '3 ^^ 1', '1 << 3', '8 >> 1', 'true and true', 'false or true', 'true xor false', 'not true', "'a' +$ 'b'",
          "'a' ==$ 'a'", "'a' <=$ 'b'", "'a' =~ 'a'", "'a' !~ 'b'", "'a' ==~ 'A'", 'x ++', 'x --', 'x += 1', 'x -= 1', 'x ||= 1',
          'x \\= 2', '5 meters', '5 kilometers', 'true then 1 else 2', '5 m to feet', '255 as hexadecimal',
          '[1 .. 3]', '[1 .. 5 step 2]', '@f(2)', 'pi', '2 xyz', 'xyz']


def gen_split(tier):
    for s in SPLITS:
        toks = s.replace('(', ' ( ').replace(')', ' ) ').replace('[', ' [ ').replace(']', ' ] ').split()
        for i, t in enumerate(toks):
            for k in range(1, len(t)):
                for ws in (' ', '\t'):
                    yield [s, i, k, ws]


def case_split(case, rec):
    s, i, k, ws = case
    toks = s.replace('(', ' ( ').replace(')', ' ) ').replace('[', ' [ ').replace(']', ' ] ').split()
    if toks[i][0] == "'":
        return
    setup = corpus.SETUP + 'xyz = 11\nxy = 3\n'
    want = observe(s, setup=setup)
    toks = [glue(t) for t in toks]
    a, b = toks[i][:k], toks[i][k:]
    text = ' '.join(toks[:i] + [a + ws + b] + toks[i + 1:]).replace(' \x00 ', '')
    text = text.replace(' ( ', '(').replace(' ) ', ')') if i == 0 else text
    got = observe(text, setup=setup)
    rec.step(2)
    rec.trace()
    rec.state((s, got[0]))
    # the two halves are two tokens: never the answer of the single token they would make together
    rec.check(got != want, 'white space inside the token %r: %r' % (toks[i], text), 'not ' + repr(want), got)


def glue(t):
    return t


SPACES = [
    Space('single-gap', gen_single, case_fill, 'every gap of every statement x every filler; leading and trailing layout'),
    Space('gap-pairs', gen_pairs, case_fill, 'pairs of gaps x pairs of fillers'),
    Space('uniform', gen_uniform, case_fill, 'the same filler in every gap, and no white space wherever tokens allow it'),
    Space('parentheses', gen_parens, case_parens, 'every complete operand wrapped once or more, every pair, all, and the whole statement'),
    Space('statement-layout', gen_programs, case_programs, 'blank and comment-only statements in every position of every program'),
    Space('comment-text', gen_comment, case_comment, 'all comment texts over a hostile alphabet in eight positions'),
    Space('token-split', gen_split, case_split, 'white space inside every multi-character token'),
]
