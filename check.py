#!/usr/bin/env python3
"""check.py ID [quick|thorough]  - decides one property by deterministic simulation.

Builds the simulation of the property from /repo's current working tree, searches seeded schedules and
fault sequences for the tier's time budget, gates/minimises every violation, writes evidence/ID.json.
Exit 0: property held on everything explored (listed known findings are printed as KNOWN-FINDING lines).
Exit 1: VIOLATION property=ID replay=PATH.  Anything else: an error of the check.
check.py replay FILE : rebuilds and replays a replay file with its full trace.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('STRTK_REPO', '/repo')
BUDGET = {'quick': 35, 'thorough': 600}
QUICK_BUDGET = {'C20': 70}             # real threads and a process per isolated call: fewer runs per second


def dictionary(path):
    """integer literals of the library: boundary sizes worth trying"""
    text = open(os.path.join(REPO, 'strtk.hpp'), errors='replace').read()
    vals = set()
    for m in re.finditer(r'(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)(?![\w.])', text):
        try:
            v = int(m.group(1), 0) if not re.match(r'0\d', m.group(1)) else int(m.group(1), 8)
        except ValueError:
            continue
        if 2 <= v <= 300000:
            vals.add(v)
    small = sorted(v for v in vals if v < 70000)
    # arithmetic tables contribute many; keep them but bounded
    if len(small) > 400:
        keep = [v for v in small if v <= 256 or v & (v - 1) == 0 or (v + 1) & v == 0 or v % 100 == 0 or v % 1024 == 0]
        small = sorted(set(keep))
    with open(path, 'w') as f:
        f.write('\n'.join(map(str, small)) + '\n')
    return len(small)


def known(prop):
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) class=\[([^\]]*)\] (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def build(prop, out):
    r = subprocess.run([os.path.join(HERE, 'sim', 'build.sh'), prop, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-6000:])
        print('check error: the simulation of %s does not build against %s' % (prop, REPO))
        sys.exit(2)
    return os.path.join(out, 'sim_' + prop)


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    work = tempfile.mkdtemp(prefix='strtk_sim_')
    try:
        if sys.argv[1] == 'replay':
            path = os.path.abspath(sys.argv[2])
            prop = [l.split()[1] for l in open(path) if l.startswith('property ')][0]
            dictionary(os.path.join(work, 'dict.txt'))
            exe = build(prop, work)
            return subprocess.run([exe, 'replay', path, '--dict', os.path.join(work, 'dict.txt'), '--trace', '-']).returncode
        return check(sys.argv[1], work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, work):
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in BUDGET:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED') or '1')
    budget = float(os.environ.get('SIM_BUDGET') or (QUICK_BUDGET.get(prop) if tier == 'quick' else None) or BUDGET[tier])
    print('property=%s tier=%s seed=%d budget=%gs repo=%s' % (prop, tier, seed, budget, REPO), flush=True)
    t0 = time.time()
    ndict = dictionary(os.path.join(work, 'dict.txt'))
    exe = build(prop, work)
    t_build = time.time() - t0
    kn = known(prop)
    outdir = os.path.join(work, 'out')
    os.mkdir(outdir)
    cmd = [exe, 'explore', '--seed', str(seed), '--budget', str(budget), '--out', outdir, '--workers', str(os.cpu_count() or 8),
           '--dict', os.path.join(work, 'dict.txt'), '--known', ';'.join(k for k, _ in kn)]
    if os.environ.get('SIM_RUNS'):
        cmd += ['--runs', os.environ['SIM_RUNS']]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    stats_file = os.path.join(outdir, 'stats.json')
    if not os.path.exists(stats_file):
        print(r.stdout[-4000:])
        print('check error: the simulator did not finish (exit %d)' % r.returncode)
        return 2
    st = json.load(open(stats_file))
    new, listed = [], {}
    for v in st['violations']:
        for cls, text in kn:
            if v['class'] == cls:
                listed[cls] = (text, v)
                break
        else:
            new.append(v)
    rdir = os.path.join(HERE, 'replays')
    lines = []
    for v in new:
        os.makedirs(rdir, exist_ok=True)
        dst = os.path.join(rdir, os.path.basename(v['replay']))
        shutil.copyfile(v['replay'], dst)
        v['replay'] = dst
        print('violation: %s: %s (seed %d, run %d, %d choices minimised from %d)' % (v['class'], v['detail'], seed, v['run'], v['choices'], v['original_choices']))
        lines.append('VIOLATION property=%s replay=%s' % (prop, dst))
    counters = st['counters']
    faults = {k[6:]: v for k, v in counters.items() if k.startswith('fault:')}
    probes = {k: v for k, v in counters.items() if not k.startswith('fault:')}
    real, stub = COMPONENTS.get(prop, COMPONENTS['default'])
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': st['runs'],
            'distinct_nontrivial': st['distinct_nontrivial'],
            'rule': st['rule'],
            'samples': st['samples'] or [{'note': 'no non-trivial run among the first 60'}],
            'operations': st['ops'],
            'runs_per_hour': int(st['runs'] / max(st['search_s'], 0.001) * 3600),
            'seeds_per_hour': int(st['runs'] / max(st['search_s'], 0.001) * 3600),
            'simulated_seconds': st['sim_us'] / 1e6,
            'steps_executed': st['steps'],
            'code_edges_reached': st['code_edges'],
            'choices_drawn': st['choices'],
            'faults_injected': faults,
            'faults_total': st['faults'],
            'reach_probes': probes,
            'determinism_reruns': st['determinism_reruns'],
            'determinism_mismatches': st['determinism_mismatches'],
            'workers': st['workers'], 'search_s': st['search_s'], 'build_s': t_build,
            'size_dictionary_entries': ndict,
            'real_code': real, 'stubbed': stub,
            'known_findings_seen': [c for c in listed],
        },
        'assumptions': ASSUMPTIONS,
        'wall_s': time.time() - t0,
        'violations': len(new),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s: %d runs (%d distinct non-trivial), %d operations, %d faults, %d determinism re-runs, %.1f s search'
          % (prop, st['runs'], st['distinct_nontrivial'], st['ops'], st['faults'], st['determinism_reruns'], st['search_s']))
    for cls, text in kn:
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    if new:
        for l in lines:
            print(l)
        return 1
    if st['gate_error']:
        print('check error: ' + st['gate_error'])
        return 2
    if st['determinism_mismatches']:
        print(r.stdout[-2000:])
        print('check error: %d runs were not repeatable' % st['determinism_mismatches'])
        return 2
    if r.returncode not in (0, 1):
        print(r.stdout[-4000:])
        print('check error: simulator exit %d' % r.returncode)
        return 2
    if st['runs'] < 10:
        print('check error: only %d runs' % st['runs'])
        return 2
    return 0


COMPONENTS = {
    'default': (['strtk.hpp compiled from the working tree (AddressSanitizer, edge-counted)', 'libstdc++ streams and containers', 'glibc stdio front end'],
                ['disk and system calls below libc (in-memory files)', 'operator new/delete (deterministic failure, fill pattern)', 'clock']),
    'C20': (['strtk.hpp compiled from the working tree', 'real POSIX threads'],
            ['thread scheduler (one thread runs at a time, switched at instrumented memory accesses by the seeded schedule)', 'disk', 'clock']),
}
ASSUMPTIONS = [
    'faults are those of the simulated kernel, allocator, clock and callers; hardware and compiler are trusted',
    'seeded sampling: a clean batch is evidence, not proof',
]

if __name__ == '__main__':
    sys.exit(main())
