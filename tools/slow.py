# lists the jobs of the last run of a check: python3 tools/slow.py C05 [n]
import json, sys
from collections import Counter
r = []
for l in open('/verif/build/last-%s-a' % sys.argv[1]):
    try:
        r.append(json.loads(l))
    except ValueError:
        pass
n = int(sys.argv[2]) if len(sys.argv) > 2 else 15
print(len(r), 'jobs, total', round(sum(j.get('wall_s', 0) for j in r)), 's')
for j in sorted(r, key=lambda j: -j.get('wall_s', 0))[:n]:
    print(j['id'], 'wall', round(j.get('wall_s', 0), 1), 'solver', round(j.get('solver_s', 0), 1), 'paths', j.get('paths'), 'queries', j.get('queries'), 'fpexact', j.get('fpexact'), 'steps', j.get('steps'), j.get('complete'), j.get('crashed', ''))
c = Counter(tuple(sorted(j.get('problems', {}))) for j in r if not j.get('complete'))
print(c.most_common(8))
g = Counter()
for j in r:
    g['/'.join(j['id'].split('/')[::2][:2])] += j.get('wall_s', 0)
print([(k, round(v, 1)) for k, v in g.most_common(14)])
