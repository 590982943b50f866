"lv.py PXX level kind note: set the level entry and rebuild MANIFEST.json"
import json, os, sys, subprocess
H = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(H, 'levels.json')
l = json.load(open(p))
l[sys.argv[1]] = sys.argv[2:5]
json.dump(l, open(p, 'w'), indent=1)
subprocess.run([sys.executable, os.path.join(H, 'mkmanifest.py')])
