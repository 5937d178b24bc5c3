"""Fills the generated parts of DESIGN.md (from tools/DESIGN.in.md, the evidence files and seeded/*/meta.json)"""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(os.path.join(HERE, 'tools', 'DESIGN.in.md'), encoding='utf-8').read()
rows = ['| Change | Reported by | What it breaks | Needs |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f, encoding='utf-8'))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['what_it_breaks'].replace('|', '\\|'), m['needs'].replace('|', '\\|')))
table = []
for line in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8'):
    p = json.loads(line)
    f = os.path.join(HERE, 'evidence', p['id'] + '.json')
    if not os.path.exists(f):
        continue
    e = json.load(open(f))
    table.append('\n### %s %s\n' % (p['id'], p['title']))
    table.append('%d states, %d transitions, %d traces, %.0f s (%s)\n' % (e['coverage']['states'], e['coverage']['transitions'], e['coverage']['traces_validated_against_impl'], e['wall_s'], e['tier']))
    for n, x in e['coverage']['families'].items():
        table.append('* `%s`: %s. %d cases.' % (n, x['bounds'], x['cases']))
    for a in e['assumptions']:
        table.append('* Assumed: %s' % a)
text = text.replace('@SEEDED@', '\n'.join(rows)).replace('@TABLE@', '\n'.join(table))
open(os.path.join(HERE, 'DESIGN.md'), 'w', encoding='utf-8').write(text)
