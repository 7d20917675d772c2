# rewrites the table of planted bugs at the end of DESIGN.md
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mark = '\n## Planted bugs\n'
path = os.path.join(here, 'DESIGN.md')
text = open(path).read().split(mark)[0].rstrip('\n') + '\n'
rows = ['| change | needs | caught by |', '|---|---|---|']
for d in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s |' % (d, m['needs'].replace('|', '/'), m.get('caught_by', m['property'])))
open(path, 'w').write(text + mark + '\nEach was run with the quick check of its property (`tools/seed.py`).\n\n' + '\n'.join(rows) + '\n')
