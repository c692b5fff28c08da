"""Refreshes the planted-bug table of DESIGN.md (between the markers) from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.abspath(__file__))
missed = {'c03-diag-h', 'c03-stale', 'c07-rhs-order', 'c24-accumulate', 'c24-gap-process', 'c22-bc-coord'} | set(open(os.path.join(here, 'missed.txt')).read().split() if os.path.exists(os.path.join(here, 'missed.txt')) else [])
rows = ['| planted bug | caught by | what it needs | breaks |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append('| %s%s | %s | %s | %s |' % (i, '*' if i in missed else '', m['property'], m['needs'], m['what_it_breaks']))
s = open(os.path.join(here, 'DESIGN.md')).read()
t = '<!-- planted -->\n' + '\n'.join(rows) + '\n<!-- /planted -->'
s = s.replace('@@SEEDS@@', '\n## Planted bugs\n\nWritten from the text of the properties and the code, each passing the stable tests, kept whether caught or not. Each is caught by the quick check of\nits property. `*`: missed when planted; the check was strengthened.\n\n' + t) if '@@SEEDS@@' in s else re.sub(r'<!-- planted -->.*<!-- /planted -->', lambda _: t, s, flags=re.S)
open(os.path.join(here, 'DESIGN.md'), 'w').write(s)
