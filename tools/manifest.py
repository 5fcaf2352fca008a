import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
import re,sys
done=set(re.findall(r'mod (c\d\d);',open('/verif/harness/src/props/mod.rs').read()))
notes=json.load(open('/verif/level-notes.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i.lower() in done:
        t,l,n=notes[i]
        checks.append({"property":i,"quick_cmd":f"bash run.sh {i}","thorough_cmd":f"bash run.sh {i}","evidence_file":f"evidence/{i}.json","technique":t,"level":l,"level_note":n})
    else:
        na.append({"property":i,"reason":"check not built yet"})
m={"version":1,"setup_cmd":"bash run.sh --build","hooks":{"guard":"none","enable":"nothing to enable: the checks use public interfaces, sockets, files and processes only","source_commits":[]},"checks":checks,"not_applicable":na,"notes":"All checks rebuild the harness against /repo's working tree; see DESIGN.md."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
