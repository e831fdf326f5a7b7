"""fix(path, prop, msg, (old, new)...): edits a file of /repo, commits it as 'fix: msg' and records it in known_findings.json."""
import json, os, subprocess, sys
REPO = os.environ.get('REPO', '/repo')
def edit(p, *subs):
    s = open(REPO + '/' + p).read()
    for a, b in subs:
        if s.count(a) != 1: print("COUNT", s.count(a), p, repr(a[:80])); sys.exit(1)
        s = s.replace(a, b)
    open(REPO + '/' + p, 'w').write(s)
def commit(prop, msg):
    subprocess.check_call(['git', '-C', REPO, 'commit', '-qam', 'fix: ' + msg])
    h = subprocess.run(['git', '-C', REPO, 'rev-parse', '--short', 'HEAD'], capture_output=True, text=True).stdout.strip()
    f = '/verif/known_findings.json'; k = json.load(open(f)); k['fixed'].append(f'fixed: property={prop} {h} {msg}'); json.dump(k, open(f, 'w'), indent=1)
def fix(p, prop, msg, *subs):
    edit(p, *subs); commit(prop, msg)

def amend():
    subprocess.check_call(['git', '-C', REPO, 'commit', '-qa', '--amend', '--no-edit'])
    h = subprocess.run(['git', '-C', REPO, 'rev-parse', '--short', 'HEAD'], capture_output=True, text=True).stdout.strip()
    f = '/verif/known_findings.json'; k = json.load(open(f)); l = k['fixed'][-1].split(' '); l[2] = h; k['fixed'][-1] = ' '.join(l); json.dump(k, open(f, 'w'), indent=1)
