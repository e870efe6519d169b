"""nobuild.py ID FEATURES LOG TIER: the server (C30), or what uses its status codes (C20), does not compile."""
import json, os, sys
pid, f, log, tier = sys.argv[1:]
v = os.environ.get('VERIF_DIR', os.getcwd())
text = open(log).read()
path = os.path.join(v, 'replays', pid + '-nobuild.json')
os.makedirs(os.path.dirname(path), exist_ok=True)
json.dump({'property': pid, 'variant': 'with-' + f if f else '', 'error': text[-20000:]}, open(path, 'w'), indent=1)
print(f'octane does not compile with the features {f.replace("-", ", ")}:' if f else 'the status codes of the public enumeration are not those written down:')
print('\n'.join(l for l in text.splitlines() if l.startswith('error'))[:2000])
e = {'property': pid, 'tier': tier, 'level': 'model_checking', 'violations': 1, 'wall_s': 0,
     'seed': int(os.environ.get('VERIF_SEED', '1')),
     'coverage': {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'exhaustive': False}}
os.makedirs(os.path.join(v, 'evidence'), exist_ok=True)
json.dump(e, open(os.path.join(v, 'evidence', pid + '.json'), 'w'), indent=1)
print(f'VIOLATION property={pid} replay={path}')
