"""Rewrite the list of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(root, 'DESIGN.md')
mark = '<!-- planted -->\n'
head = open(path).read().split(mark)[0]
out = []
for name in ('seeded', 'seeded_own'):
    if name == 'seeded_own':
        out.append('\nIn lines of the repairs above (`seeded_own/`; caught as well):\n\n')
    for meta in sorted(glob.glob(os.path.join(root, name, '*', 'meta.json'))):
        m = json.load(open(meta))
        out.append('* `%s`: %s; needs %s\n' % (os.path.basename(os.path.dirname(meta)), m['what_it_breaks'], m['needs']))
open(path, 'w').write(head + mark + '\n' + ''.join(out))
