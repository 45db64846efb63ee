import json,subprocess,os
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NOTE=json.load(open('/verif/tools/levels.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if os.path.exists(f'/verif/js/props/{i}.js'):
        t=NOTE.get(i,{})
        checks.append(dict(property=i,quick_cmd=f'./run.sh {i} quick',thorough_cmd=f'./run.sh {i} thorough',evidence_file=f'evidence/{i}.json',technique=t.get('technique','property-based testing over generated inputs'),level='exploration',level_note=t.get('note','randomised generated-input search against an executable oracle; no proof of absence')))
    else: na.append(dict(property=i,reason='check not built yet'))
hook=subprocess.run(['git','-C','/repo','log','--format=%H %s','9b479e3..'],capture_output=True,text=True).stdout.splitlines()
m=dict(version=1,setup_cmd='./setup.sh',hooks=dict(guard='cargo feature `verif-hooks` of istanbul-oxide',enable='harness/Cargo.toml depends on istanbul-oxide with features = ["verif-hooks"]',source_commits=[l.split()[0] for l in hook if 'verif-hooks' in l]),checks=checks,not_applicable=na)
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
