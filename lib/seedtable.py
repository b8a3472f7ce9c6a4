"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (documentation only)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(V + '/seeded/*/meta.json'):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['needs'], m.get('missed', '')))
t = '| property | change | needs | first missed; what caught it in the end |\n|---|---|---|---|\n' + ''.join('| %s | %s | %s | %s |\n' % r for r in sorted(rows))
p = V + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)', lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
open(p, 'w').write(s)
