#!/usr/bin/env python3
"""check.py ID quick|thorough        run a check (exit 0 held, 1 violation, 2 error)
   check.py --replay FILE            run a saved case again
   check.py --build                  build everything"""
import json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from vbuild import VERIF

# id: list of (program, variant, share of the time cap)
PARTS = {'C%02d' % i: [('c%02d' % i, 'asan')] for i in range(1, 35)}
PARTS['C05'] = [('c05', 'ubsan')]
PARTS['C17'] = [('c17', 'cov')]
PARTS['C18'] = [('c18', 'tsan')]
PARTS['C28'] = [('c28', 'cov'), ('c28t', 'tsan')]
PARTS['C30'] = [('c30', 'cov')]
PARTS['C22'] = [('c22', 'ubsan')]
PARTS['C19'] = [('c19', 'ubsan'), ('c19v', 'plain')]
PARTS['C33'] = [('c33', 'ubsan')]
PARTS['C34'] = [('c34', 'asan'), ('c34s', 'fsync')]
PARTS['C29'] = [('c29', 'ubsan')]
# programs that run under another one
RUNNER = {'c19v': ['valgrind', '-q', '--tool=memcheck', '--leak-check=no', '--undef-value-errors=yes', '--error-exitcode=99', '--exit-on-first-error=yes', '--log-fd=2', '--max-stackframe=16000000']}
# wall-clock caps in seconds: reached means fewer cases, never a violation
CAP = {'quick': 240, 'thorough': 3000}
LEVEL = {}
for i in ('C10', 'C12', 'C13'):
    LEVEL[i] = 'fault_enumeration'


def level(pid):
    return LEVEL.get(pid, 'exploration')


def known(pid):
    """Lines 'known: property=<id> <what>' of the known-findings file."""
    out = []
    try:
        for line in open(os.path.join(VERIF, 'known_findings.txt')):
            m = re.match(r'known: property=(\w+) (.*)', line)
            if m and m.group(1) == pid:
                out.append(m.group(2).strip())
    except OSError:
        pass
    return out


def main():
    if sys.argv[1] == '--build':
        from concurrent.futures import ThreadPoolExecutor
        ids = sorted(p for p in PARTS if os.path.exists(os.path.join(VERIF, 'src', PARTS[p][0][0] + '.cc')))
        with ThreadPoolExecutor(3) as ex:
            list(ex.map(lambda p: [vbuild.harness(*q) for q in PARTS[p]], ids))
        return 0
    if sys.argv[1] == '--replay':
        txt = open(sys.argv[2]).read()
        prog = re.search(r'^program (\S+)', txt, re.M)
        variant = re.search(r'^variant (\S+)', txt, re.M).group(1)
        prog = prog.group(1)
        env = tool_env(prog)
        b = vbuild.harness(prog, variant)
        return subprocess.call(RUNNER.get(prog, []) + [b, '--replay', os.path.abspath(sys.argv[2])], env=env)
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    extra = sys.argv[3:]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev_path = os.path.join(VERIF, 'evidence', pid + '.json')
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    raws, viol = [], 0
    try:
        for prog, variant in PARTS[pid]:
            env = tool_env(prog)
            binary = vbuild.harness(prog, variant)
            raw = os.path.join(vbuild.BUILD, 'raw-%s-%s-%d.json' % (pid, prog, os.getpid()))
            cmd = [binary, '--seed', str(seed), '--variant', variant, '--program', prog, '--evidence', raw, '--replay-dir', rdir, '--cap', str(CAP[tier] / len(PARTS[pid]))]
            if tier == 'thorough':
                cmd.append('--thorough')
            rc = subprocess.call(RUNNER.get(prog, []) + cmd + extra, env=env)
            if os.path.exists(raw):
                raws.append(json.load(open(raw)))
                os.unlink(raw)
            if rc == 1:
                viol += 1
                break
            if rc != 0:
                print('check error: %s ended with %d' % (prog, rc), file=sys.stderr)
                return 2
    except vbuild.BuildError as e:
        print('build failed: %s' % e, file=sys.stderr)
        return 2
    cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': '', 'samples': [], 'stages': [], 'classes': {}}
    for r in raws:
        if 'violation' in r:
            cov['evaluations'] += max(1, r.get('cases', 0))
            cov['samples'].append('VIOLATION: ' + r['violation'])
            continue
        cov['evaluations'] += r['evaluations']
        cov['distinct_nontrivial'] += r['distinct_nontrivial']
        cov['rule'] += (' ' if cov['rule'] else '') + r['rule']
        cov['samples'] += [s[:1500] for s in r['samples']][:8]
        cov['stages'] += r.get('stages', [])
        for k, v in r.get('classes', {}).items():
            cov['classes'][k] = cov['classes'].get(k, 0) + v
        if r.get('capped'):
            cov['stopped_by_time_cap'] = True
    if not cov['rule']:
        cov['rule'] = 'stopped at the first violation'
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level(pid), 'coverage': cov,
          'assumptions': ['one machine, Linux, the POSIX mmap build of the library compiled by clang with the limits hook on (defaults unchanged unless a case lowers them)'],
          'wall_s': round(time.time() - t0, 2), 'violations': viol}
    with open(ev_path, 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    return 1 if viol else 0


def tool_env(prog):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(('ASAN_', 'UBSAN_', 'TSAN_', 'LSAN_', 'URKEL_')) and k != 'URKEL_REPO':
            del env[k]
    env['TZ'] = 'UTC'
    if prog == 'c21':
        env['VERIF_URKEL_BIN'] = vbuild.library('cli')[0]
        env['VERIF_URKEL_SAN'] = vbuild.library('clisan')[0]
    return env


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
