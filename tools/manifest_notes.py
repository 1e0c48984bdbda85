T_ENUM = 'bounded-exhaustive model checking: every case of the stated input space run on the real calculator in lock step with a reference model'
T_BFS = 'explicit-state model checking: breadth-first exploration of all operation histories of the real calculator up to a depth, in lock step with a reference model'
TECH['C01'] = T_ENUM + ', plus BFS over accumulator histories'
NOTE['C01'] = 'All pairs/triples of an operand domain (small rationals, ties, huge and tiny magnitudes) under every arithmetic operator and update operator, against exact rationals. Operand values outside the domain and powers with non-integer exponents are not covered.'
TECH['C02'] = T_ENUM
NOTE['C02'] = 'Every value of a digit-pattern domain under every number size, precision and rounding mode of a grid, against exact rational rounding. Sizes and magnitudes outside the grid are not covered.'
TECH['C03'] = T_ENUM + ' (precedence-climbing reference parser)'
NOTE['C03'] = 'All ordered pairs of the binary operators, triples of representatives of each level, prefix, implicit multiplication, conditionals, assignments, all token sequences up to length 4 (5 thorough) and unit sequences up to length 6, compared with the fully parenthesised text. chains of up to 11 (18) operands with one deviating operator and stacked prefix operators. Other longer expressions are not covered.'
TECH['C04'] = T_ENUM + ' (reference: the same program in canonical layout)'
NOTE['C04'] = 'Every gap (and pairs of gaps) of a 110-statement corpus over all features x every filler, every operand wrapped in parentheses, blank and comment-only lines in every position, all comment texts over a hostile alphabet up to length 2 (3 thorough), white space inside every multi-character token. Programs outside the corpus are not covered.'
TECH['C05'] = T_ENUM + ' (invariant checked on every input string)'
NOTE['C05'] = 'All strings up to length 3 (4 thorough) over a 30-character alphabet, all token pairs in 31 contexts, all sequences of core tokens up to length 4, every truncation, deletion, duplication, replacement and insertion of a token in a 110-statement corpus, unusual characters in every context, every bracket nested up to depth 1000. Longer inputs and inputs that ask for an astronomically large result are not covered.'
TECH['C06'] = T_ENUM + ' (reference: the same statements fed one at a time to a new calculator)'
NOTE['C06'] = 'All programs of up to 3 lines (4 thorough) over statement, failing, blank, comment and continued lines with every split into calls; every corpus statement broken at every top-level gap with every kind of line separator; every operator at the end of a line; all histories of up to 2 calls (3 thorough) from 56 calls in 4 modes followed by 37 probes; every function and operator over a variable evaluated again after each change of variables or settings. Longer programs and histories are not covered.'
TECH['C07'] = T_BFS + ' (reference store of fully substituted expressions)'
NOTE['C07'] = 'All operation histories up to depth 2 over 57 operations and depth 3 over 16 (3 and 4 thorough, 5 over 9), variables, results and earlier results compared after every step; every kind of value read by 30 reading expressions; every function and operator applied to every pair of 21 variables of all kinds, variables and constants unchanged in value and use. all names of two (three) characters and names resembling units, constants and words. Longer histories are not covered.'
TECH['C08'] = T_ENUM + ' (reference: the body run statement by statement at top level, and a small interpreter for nested calls)'
NOTE['C08'] = 'All bodies of up to 2 of 27 statements (and 3 of 11; 3 of 27 thorough), inline and external, in 11 calling forms with 19 argument lists; functions calling functions in all combinations of 13 outer and 8 inner bodies; all pairs of declared input types; all histories up to depth 3 (4 thorough) over 18 definitions, calls and assignments. Longer bodies and bodies outside the grammar are not covered.'
TECH['C09'] = T_ENUM + ' (independent table of unit sizes)'
NOTE['C09'] = 'Every name in four cases, symbol and prefix of every unit with powers; all ordered pairs of units of equal dimension there and back with 5 values; chains by a third unit; all products of up to two powers from a pool of 16 units (triples for 5 sets) against each other, refused across 240 dimensions; all temperature scales with 12 values; shared names under all sequences of two (three) preference orders. One known finding: the symbol "as".'
TECH['C10'] = T_ENUM + ' (exact quantities in SI with a dimension vector)'
NOTE['C10'] = 'All pairs from 28 units (44 thorough) x 4 value pairs (7) x 12 operators; all powers -4..4 and square roots of 44 units x 5 values; all triples from 14 units (28) in 12 forms; the same through variables, compound assignment, inline functions, conditionals, arrays and statistics; all products of up to 3 unit powers - each with and without automatic simplification. Units outside the pools and longer expressions are not covered.'
TECH['C11'] = T_ENUM + ' (independent table of sizes and unit systems, independent reader of the text)'
NOTE['C11'] = 'Every unit and prefix x 7 unit systems and the default x 19 values (50 thorough), with and without automatic simplification; compact() of all products of up to two powers from 20 units (34, and triples of 24 thorough) and triples of 8; every displayed name of all units and of products of pairs of every 9th unit (3rd) typed back. Other values and longer products are not covered.'
TECH['C12'] = T_ENUM + ' (reference: the same operation on single elements; exact lists and ranges), plus BFS over list histories'
NOTE['C12'] = 'Every binary operator on all ordered pairs from 14 elements of every kind as array/array, array/scalar, scalar/array, and all pairs of lists of length 1-2 from 4; every scalar function on arrays in every subset of argument positions; all ranges from 8 starts x 8 ends x 10 steps (25x21x9 grid thorough) and all unit triples; all lists up to length 3 of 9 elements (4 of 6 thorough) under every list function; all histories of 3 (4) of 12 list operations. Longer arrays are not covered.'
TECH['C13'] = T_ENUM + ' (own positional formatter and reader, Python integers, the same operation on plain decimals)'
NOTE['C13'] = 'All literals of up to 3 digits and 2 places over 4 digits of every base 2-36 in every prefix and case, E notation and percentages; every illegal digit in 8 positions; literals of 4 to 65 digits in every base; 28 values (140 thorough) in 6 representations, all conversion pairs and all bases; 13 operators and 32 function forms x 9 x 9 operand representations x 8 x 8 values; all pairs of bit patterns up to 4 bits (6), signed integers -9..16, widths up to 200. Other values are not covered.'
TECH['C14'] = T_ENUM + ' (own definitions over character sequences; Python\'s re for the regular expression operations)'
NOTE['C14'] = 'Every text up to 3 characters (4 thorough) over 20 kinds of character and up to 4 (7) over the 7 critical ones as a literal alone, in arrays, programs and functions; all pairs of strings up to length 4 and 3 over two letters, plus unusual characters, numbers and booleans, under every string function with all positions from -n-2 to n+2; all pairs of 55 strings under 12 comparisons; all patterns of two atoms (three thorough) from 17 with 5 quantifiers on 19 texts; all histories of 3 (4) of 15 operations from 7 starts. Longer strings and patterns are not covered.'
TECH['C15'] = T_ENUM + ' (three-valued truth tables, exact quantities, each branch evaluated alone)'
NOTE['C15'] = 'All chains of up to 4 operands and parenthesised formulas of depth 2 over truth, falsehood, non-booleans and errors of every kind; 26 conditions x 41 x 41 branches of every kind in every position; all pairs of 56 values in every representation and unit under six comparisons in four forms; 11 kinds of error in every operand of every operator, every argument of every function and 31 contexts. Deeper formulas are not covered.'
TECH['C16'] = T_ENUM + ' (own proleptic Gregorian calendar in whole days and microseconds)'
NOTE['C16'] = 'Every day of 48 years (of the years 1 to 9999 thorough): next day, day before, day of the year, weekday, missing days; 40 dates with and without time, fraction and zone x 41 amounts x 9 units of time (all thorough) there and back in three forms; all pairs of dates, difference in every unit and added back; all sequences of 3 (4) of 9 steps; every text one edit away from a date. Other dates and configured date formats are not covered.'
TECH['C17'] = T_ENUM + ' (definitions over exact rationals, 110-digit reference for inexact functions)'
NOTE['C17'] = 'All values of a rounding domain x places x units x forms under floor, ceil, round, abs; all factorials up to 170, gcd and lcm of all pairs in all representations and units; all pairs of 30 bases and exponents, logarithms and exponentials with their inverses; all lists of up to 3 elements, and longer ones of fewer elements, under every statistical function. Other values are not covered.'
TECH['C18'] = 'explicit enumeration of interleavings of real calculators (reference: each one alone in a pristine process), and stateless model checking of thread schedules under a controlled scheduler (every single preemption at a call; at a line, and two preemptions for small pairs, in thorough)'
NOTE['C18'] = 'Every setting, unit-system preference, option and preset with two values in two calculators, all probes evaluated alternately; all pairs of settings one after the other; all interleavings of pairs of histories, also of ones that extend a calculator with words, operators, functions, constants and presets; selections of several calculators rendered late; two threads, each with its own calculator, under every schedule with one preemption. More preemptions and more threads are not covered.'
TECH['C19'] = T_ENUM + ' (every feature configuration up to two further features; reference: the same expressions under the full preset)'
NOTE['C19'] = 'Every group of expressions with only the features whose syntax it uses, with every one further feature before and after (every two in thorough), all rotations, reversals and moves of the full order, everything except one feature, everything again, and features imported from files in all orders. Larger combinations between these extremes are not covered.'
TECH['C20'] = T_ENUM + ' (lock step of normal and dry-run evaluation)'
TECH['C21'] = T_ENUM + ' (defining relations and independently computed reference values)'
NOTE['C21'] = 'A grid of angles in radians and degrees under all trigonometric functions, pairs of angles under the addition theorems, all inverse functions there and back, recurrences and special values of the special functions over argument grids, every library function against an independent call with every mixture of integer and real arguments. Other arguments are not covered.'
TECH['C22'] = 'exhaustive fault injection into the real interpreter (every failing construct in every context; a failure at every call of an operand; an interrupt at every internal call) with the statements before the fault, run one at a time, as the reference'
NOTE['C22'] = '27 failures in 46 contexts in 25 forms of statement, in the middle of a program and alone, followed by 14 probes; all programs of up to 3 (4) of 17 good and failing statements, twice; 19 programs with a failure of five kinds at every call of an operand; 12 (16) programs interrupted at every internal call. Failures in native library code are not covered.'
NOTE['C20'] = 'All statements of a corpus over every feature in four variable contexts, stateless against normal; all histories of three statements (four over 8) with every assignment of evaluation modes; all programs cut at every character, parsed only against evaluated; all programs of four statements with a snapshot after each; every state change in every position of an expression. Longer histories are not covered.'
TECH['C23'] = 'exhaustive enumeration of declarations x argument kinds on the real dispatcher with a recording implementation, against a model of declared signatures; every built-in operation against a table of its documented signature'
NOTE['C23'] = 'Definitions with every kind and pair of kinds (triples thorough), 0-3 parameters, counts open and closed, overlapping and ranged declarations, unit dimensions; up to 29 kinds of argument; all built-in functions and operators with 22 kinds in one or two positions and 12 notations of each number; operators of 8 forms at every level. Which of the equal-length array rules applies to a literal array where only a variable is declared is left open.'
TECH['C24'] = 'exhaustive enumeration of option settings (alone, in pairs, together, and histories of them) x expressions on the real interpreter, with the default notation of a calculator nobody configured as the reference'
NOTE['C24'] = '11 options with 4-6 symbols each over some 130 expressions with placeholders; all pairs of settings that do not clash; 45 settings of all options at once; all histories of up to 3 (4) settings; values, functions and external files kept from one notation to another; six families of date formats with three for people. Symbols that begin like an operator or another symbol in use are not covered.'
