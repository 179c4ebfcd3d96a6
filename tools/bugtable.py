"""Writes the table of planted bugs into DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | needs | breaks |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m.get('caught_by', m['property']), m['needs'], m['what_it_breaks']))
p = V + '/DESIGN.md'
t = open(p).read()
t = re.sub(r'<!-- bugs -->.*<!-- /bugs -->', lambda _: '<!-- bugs -->\n' + '\n'.join(rows) + '\n<!-- /bugs -->', t, flags=re.S)
open(p, 'w').write(t)
