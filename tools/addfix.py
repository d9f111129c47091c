"""addfix.py PROPERTY 'what failed' [words of the commit title]: records a repair (last commit of /repo by default)"""
import json, subprocess, sys
p = '/verif/known_findings.json'
k = json.load(open(p))
prop, what = sys.argv[1:3]
cmd = ['git', '-C', '/repo', 'log', '-1', '--format=%h'] + (['--fixed-strings', '--grep', sys.argv[3]] if sys.argv[3:] else [])
h = subprocess.check_output(cmd, text=True).strip()
assert h
k.append({'property': prop, 'status': 'fixed', 'commit': h, 'what': what, 'entry': 'fixed: property=%s %s %s' % (prop, h, what)})
json.dump(k, open(p, 'w'), indent=1)
print(k[-1]['entry'])
