"""C05 Parsing is lossless and errors locate themselves exactly."""
import itertools

from mc.core import Space
from mc import calc, corpus
from modularcalculator.services.syntaxhighlighter import SyntaxHighlighter

ASSUMPTIONS = ['inputs that ask for an astronomically large result are outside the property']

HL = SyntaxHighlighter()


def nested(items, rec, text, where):
    t = ''.join(i.text for i in items)
    rec.check(t == text, where + ' item texts', text, t)
    for i in items:
        if hasattr(i, 'items') and isinstance(i.items, list):
            nested(i.items, rec, i.text, 'inner')


def examine(text, rec, preset='Computing', setup=corpus.SETUP):
    c = calc.shared(preset)
    with calc.captured() as out:
        if setup:
            calc.run(c, 'reset()')
            calc.run(c, setup)
        o = calc.run(c, text)
        rec.step()
        rec.trace()
        if o.kind == 'crash':
            rec.bad('another exception than a calculating error', 'result or calculating error', [text, repr(o.exc)[:200]])
            return
        if o.ok():
            got = ''.join(i.text for r in o.results for i in r.items)
            rec.check(got == text, 'concatenated item texts', text, got)
            for r in o.results:
                nested(r.items, rec, r.expression, 'statement')
            hl = HL.highlight_statements([r.items for r in o.results])
            got = ''.join(t for st in hl for _, t in st)
            rec.check(got == text, 'highlighted text', text, got)
            rec.check(all(k != 'default' for st in hl for k, _ in st), 'highlighting leaves nothing unclassified', None, hl)
            rec.state(('ok', tuple(i.desc() for r in o.results for i in r.items)))
        else:
            e = o.exc
            pre = ''.join(i.text for s in e.statements for i in s)
            nxt = e.next
            ok = text.startswith(pre) and (nxt is None or text[len(pre):].startswith(nxt))
            if not rec.check(ok, 'statements of the error, then the offending part, begin the input', text, [pre, nxt, e.message]):
                return
            try:
                pos, tr = e.find_pos(text), e.truncate(text)
            except Exception as x:
                rec.bad('locating the error', len(pre), repr(x)[:200])
                return
            rec.check(pos == len(pre) and tr == pre, 'position and truncation', [len(pre), pre], [pos, tr])
            done = ''.join(i.text for r in (o.results or []) for i in r.items)
            rec.check(text.startswith(done) and len(done) <= len(pre), 'delivered results precede the error', text, done)
            for s in e.statements:
                hl = HL.highlight_statements([s])
                rec.check(''.join(t for _, t in hl[0]) == ''.join(i.text for i in s), 'highlighting of an error statement',
                          ''.join(i.text for i in s), hl)
            rec.state((o.kind, len(pre), nxt is None, tuple(i.desc() for s in e.statements for i in s)))
    rec.check(out.getvalue() == '', 'no diagnostics printed', '', out.getvalue()[:300])


CHARS = list("1a (){}[]'\\,.+-*=#@\n0xe%<~!|")


def gen_chars(tier):
    n = 3 if tier == 'quick' else 4
    for k in range(1, n + 1):
        for s in itertools.product(CHARS, repeat=k):
            yield ''.join(s)
    small = list("1a({['\\,+=@)]}\n")
    for s in itertools.product(small, repeat=n + 1):
        yield ''.join(s)


def case_text(case, rec):
    examine(case, rec)


TOKENS = ['1', '0', 'x', 'a', 'f', 'nosuch', "'s'", 'true', '(', ')', '[', ']', '{', '}', 'max(', 'length(', '@f(', '@nosuch(', ',',
          '+', '-', '*', '/', '=', '==', '^', '++', '+=', 'not', 'then', 'else', 'and', 'meters', 'to', 'as', 'hex', '..', 'step',
          '#c', '\n', ' ', '1/0', "'2020-01-01'", '+$', '=~', '0b1', '5%', ';', '$', '"', '?']
WRAP = ['%s', '(%s', '(%s)', 'max(%s', 'max(1, %s)', '[%s', '[1, %s]', '{%s', 'f = {%s}\n@f(1)', '@f(%s)', '1 + %s', '%s + 1',
        'x = %s\n1', '1\n%s\n2', '[1 .. %s]', '[1 .. 9 step %s]', '[%s, 1/0]', '(1 + (2 * (%s)))', 'max(min(1, %s), 2)',
        'element([1, %s], 1) / 0', 'x = (y = %s) / 0', '@f(@f(%s))', '[[%s]]', 'true then %s else 2', "'a' +$ %s", '%s meters to feet',
        '(\n%s\n)', ' %s # c', 'max(,%s)', 'max( , %s)', '@f(,%s,)']


def gen_tokens(tier):
    for w in WRAP:
        for s in itertools.product(TOKENS, repeat=1):
            yield w % ''.join(s)
        for s in itertools.product(TOKENS, repeat=2):
            yield w % ' '.join(s)
            if tier != 'quick' or w in ('%s', '(%s)', 'max(%s', '[%s', '@f(%s)'):
                yield w % ''.join(s)
    core = ['1', 'x', '(', ')', '[', ']', '{', '}', 'max(', '@f(', ',', '+', '/', '=', '..', '1/0', '\n', "'s'"] + \
        ([] if tier == 'quick' else ['step', 'meters', 'not', 'then', 'else', '#c', '++', '-'])
    for s in itertools.product(core, repeat=4):
        yield ''.join(s)


def gen_mutations(tier):
    pool = ['1/0', '(', ')', ',', ']', '}', '+', '\n', 'nosuch', '1', "'", '@f(', '#'] if tier == 'quick' else TOKENS
    progs = [s.split(' ') for s in corpus.STATEMENTS] + [' \n '.join(p).split(' ') for p in corpus.PROGRAMS]
    seen = set()

    def put(toks):
        t = ' '.join(toks)
        if t not in seen:
            seen.add(t)
            return [t]
        return []

    for toks in progs:
        yield from put(toks)
        for i in range(len(toks)):
            yield from put(toks[:i] + toks[i + 1:])
            yield from put(toks[:i] + [toks[i], toks[i]] + toks[i + 1:])
            for p in pool:
                yield from put(toks[:i] + [p] + toks[i + 1:])
                yield from put(toks[:i] + [p] + toks[i:])
        text = ' '.join(toks)
        for i in range(len(text)):
            yield text[:i]
            yield text[:i] + text[i + 1:]


UNUSUAL = ['\x00', '\x7f', '\u00a0', '\u2003', '\u0663', '\u00b2', '\u00bd', '\u00e9', '\u212b', '\U0001d7d8', '\U0001f600', '\ud800',
           '\ufeff', '\r', '\x0b', '\x1c', '\x85', '\u2028', '\u0301', '\uff0b', '\uff11', '\u0130', '\u00df', '"', '`', '\u2160']


def gen_unusual(tier):
    ctx = ['%s', '1%s', '%s1', '1 + %s', 'x%s', "'%s'", '(%s)', '[%s]', '[1%s2]', 'max(%s)', '@f(%s)', '{%s}', '#%s', '1 %s\n2', '0x%s',
           '0b%s', '1.%s', '5%s meters', '3z%s', '1E%s', "length('%s')", "'a%sb' == 'a'", '1%s1', 'f%s(1)', '@f%s(1)', 'true%s',
           '[1..%s]', '\n%s\n', "'%s' + 1", "'%s' +$ 1", "upper('%s')", "'%s' <$ 'a'", "'%s' =~ '.'", "'x' =~ '%s'"]
    for u in UNUSUAL:
        for x in ctx:
            yield x % u
        for v in UNUSUAL:
            yield u + v
            yield '1 ' + u + v


def gen_nesting(tier):
    for opener, inner, closer in [('(', '1', ')'), ('[', '1', ']'), ('{', '1', '}'), ('max(', '1', ')'), ('@f(', '1', ')'),
                                  ('(1+', '1', ')'), ('not ', 'true', ''), ('- ', '1', ''), ('-', '1', ''), ('1+', '1', ''),
                                  ('1^', '1', ''), ('[1, ', '2', ']'), ('x = (', '1', ')'), ('true then (', '1', ') else 2'),
                                  ('max(1, ', '1/0', ')'), ('(', '1/0', ')'), ('[', '1/0', ']'), ('@f(', '1/0', ')')]:
        for n in (1, 2, 3, 10, 30, 100, 300, 1000):
            if len(opener) > 3 and 'max' not in opener and n > 300:
                continue
            for close in (True, False):
                yield [opener, inner, closer if close else '', n]


def case_nesting(case, rec):
    opener, inner, closer, n = case
    examine(opener * n + inner + closer * n, rec)


def gen_presets(tier):
    toks = [t for t in TOKENS if t not in ('\n',)]
    for preset in ('Basic', 'Advanced', 'Scientific'):
        for s in itertools.product(toks, repeat=2):
            yield [preset, ''.join(s)]
            yield [preset, ' '.join(s)]
        for s in itertools.product(['1', 'x', '(', ')', '+', '/', '=', '0', '\n', '[', ']', ',', 'max('], repeat=3):
            yield [preset, ''.join(s)]
        for s in corpus.STATEMENTS:
            yield [preset, s]
            yield [preset, s.replace(' ', '')]


def case_presets(case, rec):
    examine(case[1], rec, preset=case[0], setup=None)


SPACES = [
    Space('characters', gen_chars, case_text, 'all strings over a %d-character alphabet up to the length' % len(CHARS)),
    Space('tokens', gen_tokens, case_text, 'all token pairs in every context, all sequences of core tokens up to length 4'),
    Space('mutations', gen_mutations, case_text, 'every token of every corpus program deleted, doubled, replaced, inserted; every prefix; every character deleted'),
    Space('unusual-characters', gen_unusual, case_text, 'control, space, digit and combining characters outside ASCII in every context'),
    Space('nesting', gen_nesting, case_nesting, 'every kind of bracket nested up to depth 1000, closed and unclosed'),
    Space('presets', gen_presets, case_presets, 'token pairs and corpus under the smaller presets'),
]
