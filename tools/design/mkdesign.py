"""Write /verif/DESIGN.md: head.md, one section for each check, and tail.md (run with /opt/venv/bin/python)."""
import glob, json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import sections
HEAD = open(HERE + '/head.md').read()
TAIL = open(HERE + '/tail.md').read()
rows = []
for d in sorted(glob.glob('/verif/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    name = os.path.basename(d)
    files = sorted(set(re.findall(r'^\+\+\+ b/lazy_type_hint/(\S+)', open(d + '/patch.diff').read(), re.M)))
    w = m['what_it_breaks'].strip().rstrip('.')
    w = re.sub(r'\s+', ' ', w).replace('|', '\\|')
    rows.append(f"| {name} | {', '.join(files)} | {w[:170]} | {m['property']} |")
table = "| seeded bug | file | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(rows)
open('/verif/DESIGN.md', 'w').write(HEAD + TAIL.replace('@@TABLE@@', table))
s = open('/verif/DESIGN.md').read()
n = sum(l.startswith('fixed:') for l in open('/verif/known_findings.txt'))
s = s.replace('@@NFIX@@', str(n)).replace('All the 44 defects', f'All the {n + 3} defects')
s = s.replace('## 2. Properties\n', '## 2. Properties\n\n' + sections.text())
open('/verif/DESIGN.md', 'w').write(s)
