"""python3 lib/dbg.py <replay.json>: the last events of the recorded trace the
specification explains, and the state of the specification there."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tla, server
r = json.load(open(sys.argv[1]))['replay']
T = r['trace']
ncon = max([e['c'] for e in T if 'c' in e] + [0])
cfg = server.CFG % ('INVARIANT Where', ', '.join(map(str, range(ncon + 1))), r['app'])
acc, t = tla.validate('ServerTrace', [T], cfg, workers=1)
n = max([int(x) for x in re.findall(r'<<"AT", 1, (\d+)>>', t.out)])
for e in T[:n]:
    print(json.dumps(e)[:200])
T2 = T[:n - 1] + [{'e': 'show'}]
src = 'ShowI == (i <= Len(Traces[t]) /\\ E.e = "show") => PrintT(<<"STATE", conn, flight, down>>)\n'
acc, t = tla.validate('ServerTrace', [T2], cfg + 'INVARIANT ShowI\n', workers=1, extra=src)
o = t.out[t.out.find('"STATE"'):]
print(o[:o.find('Finished')] if len(sys.argv) < 3 else o)
