"""Decides one property from the current sources: python3 check.py <ID> [--ob TEXT]

Exit 0: every decided obligation holds.  Exit 1: VIOLATION line.  Exit 2: the
analysis could not decide enough to claim the property.
"""
import sys
sys.dont_write_bytecode = True
import collections
import hashlib
import json
import os
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from t3fsa import driver, props, info  # noqa: E402


def known_findings():
  path = os.path.join(HERE, 'known-findings.txt')
  out = []
  if os.path.exists(path):
    for line in open(path):
      line = line.strip()
      if line.startswith('known: '):
        head, _, text = line[len('known: '):].partition(' -- ')
        pid, _, key = head.partition(' ')
        out.append((pid, key.strip(), text))
  return out


def main(argv):
  pid = argv[0]
  sel = argv[argv.index('--ob') + 1] if '--ob' in argv else None
  tier = os.environ.get('VERIF_TIER', 'quick')
  if tier not in ('quick', 'thorough'):
    tier = 'quick'
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  t0 = time.time()
  obs = props.obligations(pid, tier)
  if sel:
    obs = [o for o in obs if sel in o.name]
  if not obs:
    print('no obligations for %s' % pid)
    return 2
  try:
    res, prog = driver.run_all(obs)
  except SyntaxError as e:
    print('cannot parse %s: %s' % (e.filename, e))
    return 2
  n = collections.Counter(r.status for r in res)
  bad = [r for r in res if r.status == 'violated']
  und = [r for r in res if r.status == 'undecided']

  known = [k for k in known_findings() if k[0] == pid]
  kept = []
  hit = collections.OrderedDict()
  for r in bad:
    k = next((k for k in known if k[1] and r.name.startswith(k[1])), None)
    if k is None:
      kept.append(r)
    else:
      hit.setdefault(k, []).append(r)
  bad = kept

  functions, sites, lines = set(), set(), set()
  for r in res:
    functions |= r.functions
    sites |= r.callsites
    lines |= r.lines
  floor = info.FLOOR.get(pid, 0.5)
  decided = n['discharged'] + n['violated']
  # values that agree wherever they were sampled but have no common normal form:
  # not proved, yet no sign that the analysis lost the program either
  agreeing = sum('agree at all sample points' in r.msg for r in und)
  groups = collections.Counter(r.msg[:160] for r in und)
  ev = {
      'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
      'coverage': {
          'explanation': info.explain(pid),
          'obligations': len(res), 'discharged': n['discharged'], 'undecided': n['undecided'],
          'undecided_but_equal_at_sample_points': agreeing,
          'violated': n['violated'], 'context_partitions': sum(r.parts for r in res),
          'rule_applications': sum(r.checked for r in res),
          'functions_analysed': sorted(functions), 'call_sites_analysed': len(sites),
          'source_lines_reached': len(lines),
          'undecided_reasons': [{'count': c, 'reason': m} for m, c in groups.most_common(20)],
          'samples': [r.name for r in res[::max(1, len(res) // 5)][:6]],
      },
      'assumptions': info.ASSUMPTIONS,
      'violations': len(bad),
      'wall_s': round(time.time() - t0, 2),
  }
  if not sel:
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
      json.dump(ev, f, indent=1)

  print('%s: %d obligations over %d functions, %d call sites: %d discharged, %d undecided, %d violated (%.1f s)' % (
      pid, len(res), len(functions), len(sites), n['discharged'], n['undecided'], n['violated'], time.time() - t0))
  for m, c in groups.most_common(8):
    print('UNDECIDED x%d: %s' % (c, m))
  for k, rs in hit.items():
    print('KNOWN-FINDING: property=%s %s (%d contexts)' % (pid, k[2], len(rs)))
  if bad:
    shown = collections.OrderedDict()
    for r in bad:
      shown.setdefault(tuple((r.where or [''])[-1:]) + (r.msg[:60],), []).append(r)
    out = []
    for key, rs in list(shown.items()):
      r = rs[0]
      out.append({'obligation': r.name, 'contexts': [x.name for x in rs][:40], 'message': r.msg,
                  'call_path': r.where, 'partition': r.ctx,
                  'reproduce': 'python3 check.py %s --ob %r' % (pid, r.name)})
    for o in out[:6]:
      print('  at %s' % ' > '.join(o['call_path'] or ['?']))
      print('     %s' % o['message'][:500])
      print('     in context %s%s (and %d more)' % (
          o['obligation'], ' with ' + ', '.join(o['partition']) if o['partition'] else '', len(o['contexts']) - 1))
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    path = os.path.join('replay', '%s.json' % pid)
    with open(os.path.join(HERE, path), 'w') as f:
      json.dump(out, f, indent=1)
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1
  if not sel and (decided + agreeing == 0 or decided < floor * (len(res) - agreeing)):
    print('only %d of %d obligations could be decided' % (decided, len(res)))
    return 2
  return 0


if __name__ == '__main__':
  sys.exit(main(sys.argv[1:]))
