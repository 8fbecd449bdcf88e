"""Writes /verif/MANIFEST.json from the table of checks"""
import json, os, sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, D + '/checks')
import importlib.util
src = open(D + '/checks/run.py').read().split("if __name__")[0].replace('import vp', '').replace('import importlib, sys', '')
ns = {}
exec(src, ns)
from levels import NOTES, WHY_NOT
props = [json.loads(l) for l in open(D + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in ns['GROUPS']:
        tech, note = NOTES[ns['GROUPS'][i]] if i not in NOTES else NOTES[i]
        checks.append({'property': i, 'quick_cmd': './run.sh %s quick' % i, 'thorough_cmd': './run.sh %s thorough' % i,
                       'technique': tech, 'level': 'model_checking', 'level_note': note})
    else:
        na.append({'property': i, 'reason': WHY_NOT.get(i, 'not built yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'TLA+ specifications in spec/, checked with TLC; drivers of the real code in checks/. No hooks are needed: every observation uses the public interface.'},
          open(D + '/MANIFEST.json', 'w'), indent=1)
