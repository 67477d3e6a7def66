"""fixed.py PXX: append the not yet listed fix commits of /repo as fixed by
property PXX."""
import os
import subprocess
import sys
K = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                 'KNOWN_FINDINGS.txt')
have = open(K).read()
for line in subprocess.check_output(
        ['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s',
         'b2edb15..HEAD'], text=True).splitlines():
    h, s = line.split(' ', 1)
    if f' {h} ' not in have:
        open(K, 'a').write(f'fixed: property={sys.argv[1]} {h} {s[5:]}\n')
        print(line)
