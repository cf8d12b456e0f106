"""python3 lib/show.py <replay.json> [grep]: reruns a replay and prints its events."""
import sys, json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp
r = json.load(open(sys.argv[1]))['replay']
b = vp.build('rel')
import re
old = re.search(r'/verif/build/rel-\w+', json.dumps(r['config']))
cfg = json.loads(json.dumps(r['config']).replace(old.group(0), b)) if old else r['config']
if 'ssl' in cfg.get('setup', {}):
    cfg['setup']['ssl'] = dict(cfg['setup']['ssl'], **{k: v for k, v in vp.ssl(b).items()})
x = vp.run_sim(r['script'], cfg, b)
for e in x.ev:
    e = {k: (v[:60] if isinstance(v, str) else v) for k, v in e.items() if k not in ('t', 'th')}
    print(json.dumps(e))
print(x.rc, x.err[-800:])
