"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (optional key "strengthened")."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(here, 'DESIGN.md')
old = open(path).read()
head = '| planted bug | caught by | needs | needed strengthening |\n|---|---|---|---|\n'
start = old.index(head) + len(head)
end = start
notes = {}
for line in old[start:].split('\n'):
    if not line.startswith('|'):
        break
    end += len(line) + 1
    cells = [x.strip() for x in line.strip('|').split('|')]
    notes[cells[0]] = cells[3]
rows = ''
for name in sorted(os.listdir(os.path.join(here, 'seeded'))):
    meta = json.load(open(os.path.join(here, 'seeded', name, 'meta.json')))
    rows += '| %s | %s | %s | %s |\n' % (name, meta['property'], meta['needs'].replace('|', '/'), meta.get('strengthened', notes.get(name, '')))
open(path, 'w').write(old[:start] + rows + old[end:])
