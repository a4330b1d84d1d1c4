"""python3 tools/show.py replay.json : prints the modules' imports of a replay and the last step"""
import json, sys, base64
d=json.load(open(sys.argv[1]))
print(d['key'], '|', d['what'][:400])
w=d['witness']; sc=w.get('scenario',w)
if 'steps' in sc:
    print(json.dumps(sc['steps'][-1])[:600])
    print(len(sc['mods']),'mods', {k:v for k,v in sc['host'].items() if not k.startswith('log')})
    s=sc['steps'][-1]
    if s['op']=='inst': print(base64.b64decode(sc['mods'][s['mod']]))
else: print(json.dumps(w)[:1500])
