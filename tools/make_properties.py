import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=[observe])))
M='modularcalculator/'
F=M+'features/'
p('C01','Rational arithmetic is exact',
 'Adding, subtracting, multiplying, dividing, taking remainders, integer-dividing, negating, taking absolute values, flooring, raising to whole powers and comparing numbers give exactly the mathematically correct rational result (remainder keeps the sign of the dividend), in lowest terms with a positive denominator, whenever everything fits the configured number size. Chains of operations accumulate no rounding, so algebraically equal computations give equal values. No operation changes its operands, and dividing by zero is always reported as an error.',
 ['inputs','programs'],'all operand pairs from a value set and all operation chains up to a depth, at the number API and through calculator expressions',
 'The tests evaluate a few hand-picked sums; exactness is a claim about every operand pair and every chain of operations.',
 [M+'objects/number.py',F+'numerical/basicarithmetic.py',F+'numerical/advancedarithmetic.py'],
 [('exact numerator/denominator representation',M+'objects/number.py'),('arithmetic operators',F+'numerical/basicarithmetic.py')],
 'value of each calculate() result and of direct number operations')
p('C02','Displayed numbers are the exact value correctly rounded, and read back the same',
 'The text shown for a decimal result is the exact value rounded once to the configured number of decimal places with the configured rounding mode, with no exponent, no redundant zeros, no dangling point and no negative zero. Changing the display precision or the rounding mode changes only the text, never the value, and takes effect on values computed earlier. Feeding displayed text back in gives a value that displays identically, and gives the same value whenever the places suffice.',
 ['inputs','configurations'],'all small rationals plus boundary magnitudes, crossed with all precision settings and rounding modes in the bounds',
 'Tests run with one precision and one rounding mode and check a few literals; ties, carries and setting changes form a product space.',
 [M+'objects/number.py',M+'numericalengine.py'],
 [('number to text',M+'objects/number.py'),('precision and rounding settings',M+'numericalengine.py')],
 'text of values under each setting')
p('C03','Operators group by the documented precedence and associativity',
 'Every expression evaluates as if fully parenthesised according to one fixed precedence table: operators of a higher level bind first, equal levels group left to right, prefix operators group right to left, juxtaposition of values is a multiplication that binds tighter than explicit multiplication and looser than powers, and adding explicit parentheses around what already groups together never changes the result. A minus sign directly attached to a number at the start of an operand belongs to the number. Malformed sequences are rejected with an error and never silently drop operators or operands.',
 ['programs'],'all operator/operand token sequences up to a length over an alphabet with members of every precedence level',
 'Tests exercise specific pairs of operators; grouping is a property of every sequence, including three-way interactions between levels.',
 [M+'engine.py',F+'layout.py',F+'structure/operators.py',F+'structure/innerexpressions.py'],
 [('precedence table',F+'layout.py'),('operator reduction loop',M+'engine.py'),('operator tokenising (longest match)',F+'structure/operators.py')],
 'value or error of each expression')
p('C04','White space, comments and redundant parentheses do not change meaning',
 'Inserting spaces, tabs or (inside brackets) line breaks between any two tokens, adding or removing comments, wrapping a complete operand in parentheses and adding blank or comment-only statements never changes the values, units, errors or stored variables of a program. A comment runs to the end of its line and nothing in it is executed. White space never joins or splits tokens.',
 ['programs'],'every single and every pair of insertion positions in every program of a corpus that covers all syntactic forms',
 'Tests use one fixed layout per expression; neutrality is over all insertion points in all programs.',
 [F+'nonfunctional/space.py',F+'nonfunctional/comments.py',M+'engine.py',M+'objects/items.py'],
 [('non-functional items are skipped',M+'engine.py'),('previous functional item lookup',M+'objects/items.py')],
 'results, errors and include_state variables of both variants')
p('C05','Parsing is lossless and errors locate themselves exactly',
 'For any input text, short of one that asks for an astronomically large result, the calculator either returns results or raises its own calculating error, never another exception and never hangs. The item texts of the results concatenate to exactly the input, each statement text is the concatenation of its items, and syntax highlighting covers the same text completely and in order without diagnostics. When an error is raised, its statements are an exact prefix of the input followed by the text of the offending part, so its reported position lies inside the input and truncation gives exactly the text before it.',
 ['inputs'],'all token strings up to a length over an alphabet with every token class, and all character strings up to a length over a delimiter alphabet',
 'Error positions are tested on a list of examples; losslessness and totality are claims over every input string.',
 [M+'engine.py',M+'objects/exceptions.py',M+'services/syntaxhighlighter.py',F+'structure/functions.py',F+'structure/innerexpressions.py',F+'structure/inlinefunctions.py',F+'arrays/arrays.py'],
 [('error item reconstruction',M+'engine.py'),('position lookup',M+'objects/exceptions.py'),('highlighting',M+'services/syntaxhighlighter.py')],
 'response items, error statements/next/find_pos/truncate, highlighter output and stdout')
p('C06','A session behaves the same however it is split into calls',
 'Running a program in one call gives the same per-statement results, error and final variables as feeding its statements one call at a time to one calculator, except that a program with a syntax error anywhere is not run at all. A result depends only on the text and the variables, never on which other expressions were evaluated, failed or were merely parsed before. A statement continues on the next line exactly when it ends in an operator still waiting for its right operand, and looking ahead for that has no effect on variables.',
 ['histories','programs'],'all statement sequences up to a depth over an alphabet of state-changing, failing, continuing and reading statements, with every split into calls',
 'Each test uses a fresh calculator and a single call; history independence quantifies over call histories.',
 [M+'engine.py',F+'structure/terminator.py'],
 [('statement termination lookahead',F+'structure/terminator.py'),('statement loop',M+'engine.py')],
 'results and include_state variables of whole and split runs')
p('C07','Variables behave as an independent value store',
 'After any sequence of assignments, compound assignments, increments, conditional assignments, deletions and resets, each variable holds exactly the value and unit last assigned to it, and no other variable, array element, constant, function literal or previously returned result is affected by any later operation. Compound assignment equals plain assignment of the corresponding binary expression and yields the new value. Using a variable as an operand or passing it to a function never changes it. Any name of letters, digits and underscores that does not start with a digit and is not itself a unit, a constant or a word of the language names a variable of its own, distinct from every other name.',
 ['histories'],'breadth-first exploration of all operation histories up to a depth over a small variable set and value set including units, arrays, number bases, strings and dates',
 'Aliasing and stale state need multi-step histories; the tests check one or two steps.',
 [F+'state/assignment.py',F+'state/assignmentoperators.py',F+'state/assignmentfunctions.py',M+'objects/operators.py',M+'engine.py'],
 [('variable store',F+'state/assignment.py'),('operation call and result conversion',M+'objects/operators.py'),('result finalisation',M+'engine.py')],
 'include_state variables and earlier results after every step')
p('C08','User function calls are isolated from the caller',
 'Calling an inline or external function, directly, through arrays of functions or nested inside other calls, evaluates its body with the given arguments and returns the value of its last statement; afterwards the caller\'s variables are exactly as before, whether the call succeeded or failed at any point. An external function sees only its parameters, an inline function additionally reads the caller\'s variables; neither leaks assignments or parameters out, and repeated calls with the same arguments give the same result. An external function is what its file holds when it is called.',
 ['programs','fault_sequences'],'all small function bodies crossed with argument lists, calling forms, nesting and failing positions',
 'Tests call a few functions that succeed; isolation must hold for every body, argument list and failure point.',
 [F+'structure/functionpointers.py',F+'structure/inlinefunctions.py',F+'structure/externalfunctions.py'],
 [('inline body execution with variable backup',F+'structure/inlinefunctions.py'),('external file execution',F+'structure/externalfunctions.py'),('pointer dispatch',F+'structure/functionpointers.py')],
 'call results and include_state variables around the call')
p('C09','Unit conversion is exact, invertible and consistent',
 'Converting a quantity between any two units of the same dimension multiplies by exactly the ratio of their defined sizes (temperatures use their exact scale and offset), so converting there and back, or via any third unit, gives exactly the starting value, and every name and symbol of a unit and every metric prefix denotes exactly its definition. Conversions between different dimensions are always refused. Where a name is shared by several systems, one documented preference decides, and it can be overridden by the specific name.',
 ['inputs'],'all units, all their names and symbols, all ordered pairs within each dimension, unit triples, and cross-dimension pairs',
 'Tests convert a few dozen pairs; there are hundreds of units and tens of thousands of pairs.',
 [M+'services/unitnormaliser.py',M+'objects/units.py',F+'units/units.py',F+'units/basicunitprefixes.py',F+'units/advancedunitprefixes.py',F+'unitdefinitions'],
 [('unit conversion',M+'services/unitnormaliser.py'),('unit definitions and prefixes',F+'unitdefinitions')],
 'value and unit of "to" conversions')
p('C10','Arithmetic with units preserves the physical quantity',
 'Adding, subtracting, comparing, multiplying, dividing and raising quantities with units to powers gives a result whose value and unit together equal the exact physical result, and whose dimension is the algebraic one, whatever mix of units the operands use. Adding, subtracting or comparing quantities of different dimensions is refused. Automatic unit simplification, on or off, changes only how the quantity is expressed.',
 ['programs','configurations'],'all expressions of up to three unit-carrying factors over base, derived, prefixed and non-metric units, with simplification on and off',
 'The normaliser searches unit combinations; tests cover isolated examples and cannot cover combinations.',
 [M+'services/unitnormaliser.py',F+'numerical/basicarithmetic.py',M+'objects/operators.py',M+'objects/units.py',M+'engine.py'],
 [('input normalisation',M+'services/unitnormaliser.py'),('simplification',M+'services/unitnormaliser.py'),('unit power lists',M+'objects/units.py')],
 'value and unit of results against an independent table of unit sizes and dimensions')
p('C11','Formatting and compacting quantities never loses anything',
 'Formatting a quantity as a mixed-unit text, and compacting or simplifying its unit, always represents exactly the original quantity: the parts sum to it (to the precision shown), each part but the smallest is a whole number of its unprefixed unit, units appear in decreasing size and belong to the requested measuring system. A displayed unit name, singular or plural, can be typed back and denotes the same unit.',
 ['inputs','configurations'],'all units of each dimension crossed with a value set and all unit systems',
 'Tests format a handful of times and lengths.',
 [F+'units/unitfunctions.py',M+'services/unitnormaliser.py',M+'objects/units.py'],
 [('mixed-unit formatting',F+'units/unitfunctions.py'),('unit naming',M+'objects/units.py')],
 'text of format(), value/unit of compact(), unit names')
p('C12','Array operations act elementwise and array functions follow list semantics',
 'An operator or scalar function applied to arrays gives the array of its results on corresponding elements, with scalars repeated, errors confined to their own element and differing lengths refused. Ranges contain exactly the start plus whole multiples of the step up to and including the end. Concatenating, indexing from one, filtering, counting, sorting and reversing give exactly the list result, keeping each element\'s value, unit and representation, and leave their inputs unchanged.',
 ['inputs','programs'],'all arrays up to a length over an element set, all operators and functions, all range start/end/step triples in a grid',
 'Broadcast rules apply to every operator and function at every shape; tests touch a few.',
 [F+'arrays/arrays.py',F+'arrays/arrayfunctions.py',M+'objects/operators.py'],
 [('broadcasting',M+'objects/operators.py'),('array literals and ranges',F+'arrays/arrays.py'),('array functions',F+'arrays/arrayfunctions.py')],
 'array results')
p('C13','Number representations are lossless and never affect the value',
 'Binary, octal, hexadecimal, arbitrary-base, scientific, percentage and decimal forms of a number all denote the same value: reading a literal gives its positional value, showing a value in a representation and reading the text back gives the same value whenever it is exactly representable within the configured places, and an operation\'s numeric result depends only on operand values (the rounding functions count places in the number\'s own representation), while its display follows the first operand that is not plain decimal. A digit its base does not have is never read as part of a number. Bitwise operators agree with two\'s-complement integer arithmetic, with negation limited to the operand\'s width, and binary results keep the widest operand\'s width.',
 ['inputs','programs'],'all literals up to a digit count in every base, all representation pairs, all operator and representation combinations, all small bit patterns',
 'Round trips over every base and width are not sampled by tests.',
 [F+'numerical/bases.py',F+'numerical/binarynumbers.py',F+'numerical/octalnumbers.py',F+'numerical/hexadecimalnumbers.py',F+'numerical/arbitrarybasenumbers.py',F+'numerical/expnumbers.py',F+'numerical/percentagenumbers.py',F+'numerical/numericalrepresentation.py',F+'numerical/bitwiseoperators.py'],
 [('base conversion',F+'numerical/bases.py'),('representation change',F+'numerical/numericalrepresentation.py'),('bitwise operators',F+'numerical/bitwiseoperators.py')],
 'value and text of results')
p('C14','Strings are preserved exactly and string operations are consistent',
 'Every text can be written as a string literal, escaping only quotes and backslashes, and comes back unchanged, including line breaks, comment and terminator characters. Lengths, case changes, trimming, searching, slicing, repeating, replacing, splitting and joining agree with the standard definition on all strings (numbers taking part as their displayed text), splitting then joining restores the text, and string comparisons form one consistent total order, with or without regard to case. Regular expression operations agree with the standard engine.',
 ['inputs'],'all strings up to a length over an alphabet of special characters, crossed with all string functions, operators and small integer arguments',
 'Escape sequences interact; tests cover a few literals.',
 [F+'strings/strings.py',F+'strings/stringfunctions.py',F+'strings/stringcomparison.py',F+'strings/stringarrayfunctions.py',F+'strings/regex.py'],
 [('string literal parsing',F+'strings/strings.py'),('string functions',F+'strings/stringfunctions.py')],
 'value of results')
p('C15','Boolean logic, comparison and conditionals are coherent',
 'Boolean operators follow their truth tables, the six numeric comparisons are mutually consistent for all values, representations and units, and a conditional yields exactly the chosen branch with its unit. An error in the branch not chosen, or in an operand that short-circuits, is not reported, and any other operand error is always reported and never turned into a value. Non-boolean conditions are refused.',
 ['programs','fault_sequences'],'all boolean expressions up to a depth over values, comparisons and failing operands',
 'Error suppression depends on the position of the failing operand in a nested expression.',
 [F+'boolean/booleans.py',M+'objects/operators.py',M+'engine.py'],
 [('conditional and logic operators',F+'boolean/booleans.py'),('errors as values',M+'objects/operators.py')],
 'value or error of each expression')
p('C16','Date arithmetic is exact and invertible',
 'Adding a duration to a date and subtracting it again gives the original date, the difference of two dates is never negative and added to the earlier gives the later, and durations act identically in whatever time unit they are expressed. Results agree with the proleptic Gregorian calendar, including leap years, month ends, fractions of a second and time zone offsets, and are themselves valid dates. Texts that are not dates and durations that are not times are refused.',
 ['inputs'],'all dates of a boundary set crossed with durations in all time units and each other',
 'Calendar boundaries and unit mixes are a product space the tests sample.',
 [F+'dates/dates.py',F+'dates/datefunctions.py',F+'dates/dateoperators.py'],
 [('date literals and functions',F+'dates'),('date operators',F+'dates/dateoperators.py')],
 'values of results')
p('C17','Numeric and statistical functions agree with their definitions',
 'Rounding functions, factorial, lowest common multiple, greatest common divisor, absolute value, powers, logarithms, sum, minimum, maximum, mean, median, mode and standard deviation return the value their definition gives for every input in their domain, in the unit of the inputs, independent of how the inputs are represented (but for rounding functions, which count places in the number\'s own representation), which unit each uses, and whether passed as one array or as separate arguments. Inputs outside the domain are refused with an error.',
 ['inputs'],'all argument tuples from a grid of rationals, places, representations and units, and all lists up to a length',
 'Tests check one or two calls per function.',
 [F+'numerical/numericalfunctions.py',F+'numerical/statisticalfunctions.py',M+'objects/operators.py'],
 [('numerical functions',F+'numerical/numericalfunctions.py'),('statistical functions',F+'numerical/statisticalfunctions.py'),('argument conversion',M+'objects/operators.py')],
 'value and unit of results')
p('C18','Calculators are independent of each other',
 'Several calculators in one process behave as if each were alone: variables, precision, rounding, size, unit-simplification and feature settings of one never affect what another computes or displays, whatever the order or interleaving in which they are created, configured and used, including from several threads each using its own calculator.',
 ['histories','schedules','configurations'],'all interleavings of small operation scripts over two calculators, in one thread and in two threads up to a preemption bound',
 'Tests only ever have one calculator in use at a time, in one thread.',
 [M+'numericalengine.py',M+'objects/number.py',M+'modularcalculator.py',F+'structure/terminator.py'],
 [('precision settings',M+'numericalengine.py'),('number precision context',M+'objects/number.py')],
 'results and texts of each calculator against a run alone')
p('C19','Any feature selection in any order works and gives one meaning',
 'Installing any set of features in any order succeeds, installs everything they depend on, and the resulting calculator gives the same results as installing the same set in any other order. Every feature works with only its declared dependencies installed, and an expression that two feature sets both accept and that uses only shared syntax gives the same result under both. Installing a feature twice changes nothing, an unknown feature is reported, and importing a feature file adds exactly the features that file defines.',
 ['configurations'],'every single feature, every ordered pair of features, every preset with each feature added or removed, in several orders, probed with an expression corpus',
 'Tests run almost everything with the full preset.',
 [M+'modularcalculator.py',F+'feature.py',F+'presets.py',F+'layout.py'],
 [('feature installation',M+'modularcalculator.py'),('ordering of parsers and operators',F+'layout.py')],
 'results of probes per configuration')
p('C20','Dry-run modes have no effects',
 'Evaluating in stateless mode gives the same results as normal evaluation of a single statement (that does not read back a variable it assigns itself) but leaves every variable untouched; parse-only mode evaluates nothing, reports exactly the syntax errors normal evaluation would, and returns the same statements and items. State snapshots returned with results are independent copies that later evaluation never alters.',
 ['histories','programs'],'all programs of a corpus after all short histories, under every combination of flags',
 'Flags are rarely combined with state-changing statements in tests.',
 [M+'engine.py',F+'state/assignment.py',F+'state/assignmentoperators.py',F+'state/assignmentfunctions.py'],
 [('calculate flags',M+'engine.py'),('stateless assignment',F+'state/assignment.py')],
 'results and variables with and without the flag')
p('C21','Trigonometric and special functions satisfy their defining relations',
 'Trigonometric functions respect the angle\'s unit, agree with their mathematical values within a small tolerance, are periodic and odd or even as defined, and inverse functions undo them on their principal range. Special functions satisfy their recurrences and known special values within tolerance, and exponentials and logarithms undo each other.',
 ['inputs'],'a grid of angles in every angle unit, and argument grids for each special function',
 'Tests check one value per function.',
 [F+'numerical/trigonometryfunctions.py',F+'numerical/specialfunctions.py',F+'numerical/numericalfunctions.py'],
 [('trigonometric functions',F+'numerical/trigonometryfunctions.py'),('special functions',F+'numerical/specialfunctions.py')],
 'values of results')
p('C22','A failing statement changes nothing and stops the program there',
 'When a statement fails, or is interrupted, the results of all earlier statements are delivered with the error, the failing statement leaves every variable as it was except assignments it had already completed as an operand (in nested parentheses, or to the left in a chain, which groups left), no later statement is executed, and the calculator continues to work exactly as if the failed text had never been submitted. An error anywhere inside an operand, argument or array element of an assignment prevents that assignment; only where an operation on arrays confines errors to single elements is the array with these elements the value. The same holds for failures and interrupts inside inline and external functions, which leave the caller\'s variables alone.',
 ['fault_sequences','histories'],'every failing construct injected at every position of every program in a corpus, followed by every probe',
 'Failures at every point of every nesting are not sampled by the tests.',
 [M+'engine.py',M+'objects/operators.py',F+'structure/inlinefunctions.py',F+'structure/functions.py',F+'arrays/arrays.py'],
 [('error propagation as values',M+'engine.py'),('partial response on error',M+'objects/exceptions.py')],
 'error response, variables and subsequent results')
p('C23','Operations run exactly on the arguments they declare',
 'A function or operator, built in or defined by a program, is applied only when the number of its arguments and the kinds and unit dimensions of each are those it declares; otherwise there is an error naming it, its implementation is not run and no variable changes. When they match, the implementation gets exactly these values in order, once: numeric text and booleans as numbers where numbers are declared, in whatever notation a number was written, numbers that share a unit converted to the first one\'s, and arrays given where none is declared taken element by element (all of one length, refusals confined to their elements). An operator a program adds takes the operands on the sides and with the words it declares and groups at the level it was put.',
 ['inputs','programs'],'all declared kinds x all kinds of values x all counts, for every built-in operation and for definitions of every shape',
 'The tests call each operation with a few well-formed arguments; what is refused, spread or converted is a matter of every combination.',
 [M+'objects/operators.py',F+'structure/functions.py',F+'structure/operators.py',M+'modularcalculator.py',M+'engine.py',M+'services/unitnormaliser.py'],
 [('Operation.call and validate',M+'objects/operators.py'),('add_op and levels',M+'modularcalculator.py'),('unit dimensions',M+'services/unitnormaliser.py')],
 'calls received by the implementation, results and errors')
p('C24','Feature options change the notation and nothing else',
 'Whatever symbols the feature options give to arrays, ranges, strings, escapes, statement terminators, comments, function pointers and scientific numbers, any expression written with these symbols has the results, errors, variables and statement boundaries it has in the default notation, and the former symbols lose their meaning; results that show a symbol show the configured one. Symbols of several characters, and characters that are special in patterns, are taken literally; options changed during a session act from then on, on stored functions and external files too, and on no other calculator. Date format and padding options decide how dates are read and shown, not which moment they are.',
 ['inputs','histories','programs'],'every value of every option alone, in pairs and all together, and histories of settings, over a corpus of expressions with placeholders for the symbols; six families of date formats',
 'The tests use the default options, or change one option once.',
 [F+'arrays/arrays.py',F+'strings/strings.py',F+'structure/terminator.py',F+'structure/functionpointers.py',F+'structure/externalfunctions.py',F+'numerical/expnumbers.py',F+'nonfunctional/comments.py',F+'dates/dates.py',F+'dates/datefunctions.py'],
 [('options in parsers',F+'arrays/arrays.py'),('options of dates',F+'dates/dates.py')],
 'results, errors and statement texts')
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
