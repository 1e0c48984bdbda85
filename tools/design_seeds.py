"""Write the table of planted bugs into DESIGN.md (caught = seen by the quick check of the property)."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST_MISSED = {
    'c03-rtl-chain': 'missed at first: led to the space `long` of C03',
    'c12-sort-as-float': 'missed at first: led to close values in `lists` of C12',
    'c06-function-memory': 'missed at first: led to the space `again` of C06',
    'c09-preferred-cached': 'missed at first: led to sequences of preferences in `ambiguous` of C09',
    'c10-zero-any-unit': 'missed at first: led to zero operands in `pairs` of C10',
    'c13-long-digits': 'missed at first: led to the space `long` of C13',
    'c18-power-cache': 'missed at first: led to the space `first` of C18',
    'c08-path-cache': 'missed at first: led to the space `files` of C08',
    'c20-step-flags': 'missed at first: led to the space `positions` of C20',
}
OTHERS = [
    'Changes tried and dropped because their lines are not original, but which strengthened checks: a look-ahead cache (C06 '
    '`lookahead`), an array range counting its steps (C12 `ranges`), the first error of an external function swallowed (C08 `broken`), an array range skipping a failing step (range '
    'contexts in C22 `inject`), an external terminator memory (C06), escapes of new lines (C14), a missing dependency (C19).',
    'Changes the existing tests already notice, dropped: substr with negative end, base carry, absolute power in dedupe, unit '
    'copy removal, itairy argument order, gcd of a second argument.',
]
rows = ['| id | property | needs | caught |', '|---|---|---|---|']
for d in sorted(os.listdir(ROOT + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (ROOT, d)))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], m.get('caught', 'yes') + (
        '; ' + FIRST_MISSED[d] if d in FIRST_MISSED else '')))
text = open(ROOT + '/DESIGN.md').read()
block = '<!-- seeds -->\n' + '\n'.join(rows) + '\n\n' + '\n\n'.join(OTHERS) + '\n<!-- /seeds -->'
text = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: block, text, flags=re.S)
open(ROOT + '/DESIGN.md', 'w').write(text)
