"""fills the generated parts of DESIGN.md (fixes, planted bugs) from known_findings.json and seeded/"""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = json.load(open(root + '/known_findings.json'))
k = [k for k in d if isinstance(d[k], list)][0]
fx = '\n'.join('* ' + e['what'].replace('fixed: property=', '') for e in d[k])
rows = ['| planted bug | needs | breaks | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    j = json.load(open(m))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), j['needs'], j['what_it_breaks'], j['property']))
s = open(root + '/DESIGN.md').read()
def fill(s, tag, text):
    a, b = '<!-- %s -->' % tag, '<!-- end %s -->' % tag
    new = a + '\n' + text + '\n' + b
    if a in s:
        return s[:s.index(a)] + new + s[s.index(b) + len(b):]
    return s.replace('PLACEHOLDER-' + tag.upper(), new)
s = fill(s, 'fixes', fx)
s = fill(s, 'seeds', '\n'.join(rows))
open(root + '/DESIGN.md', 'w').write(s)
