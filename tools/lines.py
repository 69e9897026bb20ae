"""lines.py DIR: lines of coax (inside functions) that no check executed; DIR was filled by checks run with VERIF_LINES=DIR"""
import collections
import glob
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vmon import cov  # noqa: E402
root = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'coax')
hit = collections.defaultdict(set)
for f in glob.glob(os.path.join(sys.argv[1], '*.json')):
    for k, v in json.load(open(f)).items():
        hit[k] |= set(v)
a = b = 0
for f, (x, y) in sorted(cov.table(root, hit).items()):
    a, b = a + len(x), b + len(y)
    src = open(os.path.join(root, f)).read().splitlines()
    if y - x:
        print(f'== {f} {len(x)}/{len(y)}')
        for n in sorted(y - x):
            print(f'{n:5d} {src[n - 1]}')
print(f'{a}/{b} lines executed')
