"""merge ZV_DUMP files into specs/baseline.json (which functions are proved on the unchanged tree, and how long it takes)"""
import json,sys,os
p=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'specs','baseline.json')
b=json.load(open(p)) if os.path.exists(p) else {}
for f in sys.argv[1:]:
    for r in json.load(open(f)):
        b[r['fn']]=dict(status=r['status'],wall=round(r['wall'],1),obl=len(r['obl']),hash=r.get('hash'))
json.dump(dict(sorted(b.items())),open(p,'w'),indent=0)
