"""A corpus of programs over every feature, as token lists.

A program is a list of statements; a statement is written with single spaces between tokens.  A function name is glued to
its opening bracket, because a name followed by a bracket elsewhere is a multiplication.
"""

STATEMENTS = [
    '1 + 2 * 3', '7 / 2 - 1', '5 - 3', '2 ^ 10 \\ 7 % 5', '-3 + 4', '( 1 + 2 ) * ( 3 - -4 )', '2 ( 3 ) ( 4 )', '6 * ( 2 + ( 3 - 1 ) )',
    '17 % 5 ^ 2', '1.50 + .25', '12 / ( 3 - 3 )', '1 / 0 + 2', '( 2 + 3', '2 + 3 )', '2 + * 3', '+ 4', '5 5', 'nosuch + 1', '3E5 + 1', '50% * 4', '1E-3 * 2',
    '0b101 + 1', '0x1F | 0b1', '0o17 ^^ 5', '6 & 3 << 2', '~ 0b1010', '255 as hexadecimal', '0xff as binary',
    '3z12 + 1', 'true and not false or ( 1 > 2 )', 'false xor true', '1 <= 2 == true', '1 then 2 else 3', 'true then 5 else 1 / 0',
    '3 < 4 then ( 1 + 1 ) else 9', "'ab' +$ 'cd'", "'ab' *$ 3", "'a' <$ 'b'", "'Ab' ==~ 'aB'", "'a1b' =~ '[0-9]'", "'x#y' +$ '(z'",
    "length( 'hello' ) + 1", "upper( 'abc' )", "substr( 'abcdef' , 1 , 3 )", "replace( 'banana' , 'an' , 'o' )",
    "split( 'a,b' , ',' )", "join( [ 'a' , 'b' ] , '-' )", "regexget( 'a12b3' , '[0-9]+' )",
    '[ 1 , 2 , 3 ] * 2', '[ 1 .. 5 ]', '[ 1 .. 9 step 3 ] + [ 1 , 2 , 3 ]', '[ 1 , [ 2 , 3 ] , 4 ]', '[ 3 .. 1 step -1 ]',
    '[ 1 , 1 / 0 , 3 ] + 1', '[ 1 , 2 ] + [ 1 , 2 , 3 ]', 'sort( [ 3 , 1 , 2 ] )', 'element( [ 10 , 20 ] , 2 )', 'count( [ 1 .. 4 ] )',
    'filter( [ 1 , 2 , 3 ] , [ true , false , true ] )', 'concat( [ 1 ] , [ 2 ] )',
    'max( 1 , 5 , 3 )', 'round( 2.567 , 1 )', 'abs( -4 ) * ( 2 )', 'sum( [ 1 , 2 , 3 ] )', 'mean( 1 , 2 , ( 3 ) )', 'factorial( 5 )',
    'sqrt( 16 ) + 1', 'sin( 0 )', 'max( )', 'max( 1 , ( 2 )', 'nofunc( 1 )',
    '5 meters', '5 meters to feet', '( 3 km + 20 meters ) to miles', '6 meters / 2 seconds', '3 kg meters / s ^ 2', '2 hours + 30 minutes',
    '5 kg + 3 meters', '10 m * 3 m', '100 c to fahrenheit', '[ 1 m , 2 ft ] to inches', 'c * 2', 'format( 90 minutes )',
    "'2020-01-31' + 1 day", "'2020-03-01' - '2020-02-01'", "'2020-01-01' < '2021-01-01'", "day( '2020-01-31' )",
    'x = 5', 'x += 2 * 3', 'x ++', 'x --', 'x ||= 7', 'y = x = 3', 'x = ( y = 2 ) + 1', 'x * y', 'delete( x )', 'reset( )', 'x ^= 2', 'z = x + 1 m',
    'f = { PARAM1 + x }', '@f( 2 )', '@f( ( 3 ) )', '@f( [ 1 , 2 ] )', 'fn = { u1 = PARAM1 * 2 }', '@fn( @f( 1 ) )', '@h( 1 )', 'f = { 1 / 0 }',
    'a = [ 1 , x , 3 ]', 'a + 1', 'element( a , 2 ) = 4',
]

SETUP = 'x = 4\ny = 2.5\na = [10, 20]\nf = {PARAM1 * 3}\nfn = {PARAM1 + 1}\n'

PROGRAMS = [
    ['x = 5', 'y = x + 1', 'x * y'],
    ['x = 1', 'x ++', 'x += 2', 'x'],
    ['1 / 0', 'x = 9'],
    ['x = 8', '( 1', 'x = 9'],
    ['f = { PARAM1 + y }', 'y = 10', '@f( 1 )', 'y'],
    ['a = [ 1 .. 3 ]', 'a = a * 2', 'sum( a )'],
    ['x = 3 meters', 'y = 2 seconds', 'x / y to kph', 'x'],
    ["d = '2020-01-31'", 'd + 1 month', 'd'],
    ['delete( x )', 'x ||= 3', 'x ||= 4', 'x'],
    ["s = 'a'", "s = s +$ 'b'", 'length( s )'],
    ['x = true then 1 else 2', 'not false and x == 1'],
    ['reset( )', 'x = 2', 'x'],
]


def is_name_char(ch):
    return ch.isalnum() or ch in '_.'


OPCH = set('+-*/\\%^<>=!&|~$')


def can_join(a, b):
    """May the two tokens stand next to each other with nothing between them and still be the same two tokens?"""
    if is_name_char(a[-1]) and is_name_char(b[0]):
        return False
    if a[-1] in OPCH and (b[0] in OPCH):
        return False
    if a[-1] == "'" and b[0] == "'":
        return False
    if is_name_char(a[-1]) and b[0] == '(' and not a[0].isdigit():
        return False               # would become a function call
    if a[-1].isdigit() and b[0] in '%':
        return False               # a percentage literal
    if b[0] == '-' and len(b) > 1:
        return False
    return True


def opens(t):
    return t[-1] in '([{' and t[0] != "'"


def closes(t):
    return t in (')', ']', '}')


def gaps(toks):
    """For every gap i (between toks[i] and toks[i+1]): 'bracket' (line breaks are white space) or 'line'."""
    stack = []
    out = []
    for i, t in enumerate(toks[:-1]):
        if opens(t):
            stack.append(t[-1])
        elif closes(t) and stack:
            stack.pop()
        out.append('line' if not stack or '{' in stack else 'bracket')
    return out
