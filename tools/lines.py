#!/usr/bin/env python3
"""lines.py [IDS]: which lines of /repo/src the checks reach (a developer's tool)."""
import glob, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
ids = sys.argv[1:] or ['C%02d' % i for i in range(1, 27) if i not in (17, 18, 21)]
d = tempfile.mkdtemp(prefix='urkel-lines-')
bins = []
for i in ids:
    b = vbuild.harness(i.lower(), 'prof')
    bins.append(b)
    env = dict(os.environ, LLVM_PROFILE_FILE=d + '/' + i + '-%c.profraw', TZ='UTC')
    subprocess.call([b, '--seed', '1', '--scale', os.environ.get('SCALE', '0.1'), '--program', i.lower(), '--variant', 'prof', '--evidence', d + '/ev'], env=env)
raws = glob.glob(d + '/*.profraw')
subprocess.check_call(['llvm-profdata-18', 'merge', '-o', d + '/all.profdata'] + raws)
out = subprocess.run(['llvm-cov-18', 'show', bins[0]] + sum([['-object', b] for b in bins[1:]], []) + ['-instr-profile', d + '/all.profdata', '-show-branches=count'], capture_output=True, text=True).stdout
open('/tmp/lines.txt', 'w').write(out)
subprocess.call(['llvm-cov-18', 'report', bins[0], '-instr-profile', d + '/all.profdata'])
