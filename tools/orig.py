"""which lines each planted bug removes, and whether they are the original repository's"""
import glob, re, subprocess, sys
BASE = '3e45a28'
ids = sys.argv[1:] or sorted(x.split('/')[-2] for x in glob.glob('/verif/seeded/*/patch.diff'))
blames = {}
for i in ids:
    f, old, own, tot = None, 0, 0, 0
    for l in open('/verif/seeded/%s/patch.diff' % i):
        l = l.rstrip('\n')
        if l.startswith('--- '):
            f = l[6:]
            if f not in blames:
                out = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-l', f], capture_output=True, text=True).stdout.splitlines()
                blames[f] = [x.split()[0].lstrip('^') for x in out]
        elif l.startswith('@@'):
            old = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-'):
            tot += 1
            own += not BASE.startswith(blames[f][old - 1][:7]) and not blames[f][old - 1].startswith(BASE)
            old += 1
        elif l.startswith(' ') or l == '':
            old += 1
    print(i, 'removed', tot, 'of which not original', own)
