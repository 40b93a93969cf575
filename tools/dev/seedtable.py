"""seedtable.py TAB: writes section 5's table of DESIGN.md from lines seed|rc|secs|VIOLATION line|message."""
import sys, json, re
rows = ['| planted bug | needs | caught by (quick tier: test: oracle) |', '|---|---|---|']
for l in open(sys.argv[1]):
    s, rc, secs, viol, msg = l.rstrip('\n').split('|', 4)
    needs = json.load(open('/verif/seeded/%s/meta.json' % s))['needs']
    m = re.match(r'(\w+): ([\w-]+): ', msg)
    rows.append('| %s | %s | %s |' % (s, needs, '%s %s: %s' % (s.split('-')[0], m.group(1), m.group(2)) if rc == '1' and m else 'MISSED'))
p = '/verif/DESIGN.md'; t = open(p).read(); i = t.index('## 5. Planted bugs'); head = t[:i]; body = t[i:]
body = re.sub(r'\| planted bug.*', '', body, flags=re.S).rstrip('\n')
open(p, 'w').write(head + body + '\n\n' + '\n'.join(rows) + '\n')
