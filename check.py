#!/usr/bin/env python3
"""check.py ID quick|thorough : decides one property by generated-input search.

Builds the property's harnesses from /repo's current working tree, runs them on 8 workers with the seed in
VERIF_SEED, shrinks and re-checks failures, writes evidence/ID.json.  Exit 0: held on everything explored.
Exit 1 with a VIOLATION line: a failing input, confirmed by replaying it.  Exit 2: no answer (build failure)."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('CYBOZU_REPO', '/repo')
sys.path.insert(0, VERIF)
from catalog import CATALOG

BASE = ['-U_FORTIFY_SOURCE', '-g1', '-std=gnu++17', '-march=x86-64-v2', '-w', '-fno-omit-frame-pointer', 
        '-I', os.path.join(VERIF, 'lib'), '-I', os.path.join(VERIF, 'harness'), '-I', os.path.join(REPO, 'include')]
SAN = {
    'asan': ['-O1', '-fsanitize=address', '-D_GLIBCXX_SANITIZE_VECTOR'],
    'tsan': ['-O1', '-fsanitize=thread'],
    'none': ['-O2'],
    'plain': ['-O1'],
}
ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=8:handle_segv=1:symbolize=0:quarantine_size_mb=16'
ENV['UBSAN_OPTIONS'] = 'print_stacktrace=0:halt_on_error=1:symbolize=0'
ENV['TSAN_OPTIONS'] = 'exitcode=66:halt_on_error=1:report_bugs=1:symbolize=0'
ENV['TZ'] = 'UTC'
ENV['LC_ALL'] = 'C.UTF-8'


def build(h, bdir, fuzz=False):
    src = os.path.join(VERIF, 'harness', h['src'])
    exe = os.path.join(bdir, h['name'] + ('.fuzz' if fuzz else ''))
    if fuzz:
        cmd = ['clang++'] + BASE + ['-O1', '-fsanitize=fuzzer,address', '-DPBT_FUZZ']
    else:
        cmd = [h.get('cxx', 'g++')] + BASE + SAN[h.get('san', 'asan')]
    cmd += h.get('flags', [])
    objs = []
    jobs = []
    for s in (src, os.path.join(VERIF, 'lib', 'pbt_main.cpp')):
        o = exe + '.' + os.path.basename(s) + '.o'
        objs.append(o)
        jobs.append(subprocess.Popen(cmd + ['-c', '-o', o, s], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV))
    out = ''
    rc = 0
    for j in jobs:
        out += j.communicate()[0].decode('utf8', 'replace')
        rc |= j.returncode
    if rc:
        return exe, rc, out
    r = subprocess.run(cmd + ['-o', exe] + objs + h.get('libs', []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
    return exe, r.returncode, r.stdout.decode('utf8', 'replace')


def run(cmd, timeout, cwd):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, cwd=cwd, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return None, ''


def write_replay(pid, h, f):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%s.replay' % (pid, h['name'], f['prop']))
    with open(path, 'w') as fp:
        if f.get('seq'):
            fp.write('@seq %d\n%s\n' % (f.get('scale', 1), '\n'.join(f['seq'])))
        else:
            fp.write('%s %d\n%s\n' % (f['prop'], f.get('scale', 1), ' '.join(str(c) for c in f['choices'])))
    with open(path + '.txt', 'w') as fp:
        fp.write('property %s harness %s case %s\n%s\n\n%s\n\n%s\n' % (pid, h['name'], f['prop'], f['msg'], f['note'], f['stderr']))
    return path


def main():
    if sys.argv[1:] == ['--setup']:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        return subprocess.call(['g++', '--version'], stdout=subprocess.DEVNULL)
    if len(sys.argv) < 3:
        print(__doc__)
        return 2
    pid, tier = sys.argv[1], sys.argv[2]
    c = CATALOG[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    bdir = tempfile.mkdtemp(prefix='vp-%s-' % pid)
    os.chmod(bdir, 0o755)
    try:
        return check(pid, tier, c, seed, t0, bdir)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def check(pid, tier, c, seed, t0, bdir):
    hs = c['harness']
    if tier == 'replay':
        path = os.path.abspath(sys.argv[3])
        for h in hs:
            if '-%s-' % h['name'] in os.path.basename(path):
                exe, rc, out = build(h, bdir)
                if rc:
                    print(out)
                    return 2
                rc, out = run([exe, '--replay', path, '--tmp', bdir], 120, bdir)
                print(out)
                return rc
        return 2
    with ThreadPoolExecutor(8) as ex:
        built = list(ex.map(lambda h: build(h, bdir), hs))
    for h, (exe, rc, out) in zip(hs, built):
        if rc:
            print('BUILD-FAILED property=%s harness=%s' % (pid, h['name']))
            print('\n'.join([l for l in out.splitlines() if 'error' in l][:12])[:3000])
            return 2
    tb = time.time()
    total = float(os.environ.get('VERIF_SEC', 0)) or (c.get('quick', 24) if tier == 'quick' else c.get('thorough', 240))
    wsum = sum(h.get('weight', 1) for h in hs)
    agg = {'evaluations': 0, 'distinct': 0, 'discards': 0, 'perProp': {}, 'labels': {}, 'samples': []}
    violations = []
    known = []
    notes = []
    for h, (exe, _, _) in zip(hs, built):
        sec = total * h.get('weight', 1) / wsum
        scale = 1 if tier == 'quick' else 2
        flaky = h.get('flaky', 0)
        tmp = os.path.join(bdir, 't_' + h['name'])
        os.makedirs(tmp, exist_ok=True)
        outf = os.path.join(tmp, 'out.json')
        attempt = 0
        while True:
            attempt += 1
            cmd = [exe, '--sec', str(sec), '--seed', str(seed + 7919 * (attempt - 1)), '--workers', str(h.get('workers', 8)), '--scale', str(scale),
                   '--out', outf, '--tmp', tmp, '--hang', str(h.get('hang', 60)), '--flaky', str(flaky)]
            rc, out = run(cmd, sec + 400, tmp)
            if rc is None or rc not in (0, 1, 3):
                print('NO-ANSWER property=%s harness=%s rc=%s\n%s' % (pid, h['name'], rc, out[-2000:]))
                if attempt >= 2:
                    return 2
                continue
            res = json.load(open(outf))
            if rc == 3:
                # a failure that did not come back from its own seed: not believed; look again once
                notes.append('unstable failure ignored: %s' % json.dumps(res['unstable'])[:1500])
                print('note: ' + notes[-1])
                if attempt >= 3:
                    break
                continue
            if rc == 1:
                v = confirm(pid, h, exe, res['failure'], tmp, flaky)
                if v:
                    violations.append(v)
                    break
                notes.append('failure not confirmed by replay: %s %s' % (h['name'], res['failure']['msg'][:500]))
                print('note: ' + notes[-1])
                if attempt < 2:
                    continue
            break
        if rc == 3:
            continue
        agg['evaluations'] += res['evaluations']
        agg['discards'] += res['discards']
        if rc == 1:
            continue
        agg['distinct'] += res['distinct']
        for k, v in res['perProp'].items():
            agg['perProp'][h['name'] + '.' + k] = v
        for k, v in res['labels'].items():
            agg['labels'][h['name'] + '.' + k] = v
        agg['samples'] += [h['name'] + '.' + s for s in res['samples']]
        if tier == 'thorough' and h.get('fuzz') and not violations:
            r = fuzz(pid, h, exe, bdir, h['fuzz'] if h['fuzz'] > 1 else 90, seed, agg, notes)
            if r:
                violations.append(r)
    # committed list of findings: printed while they still reproduce
    for line in open(os.path.join(VERIF, 'known_findings.txt')):
        m = re.match(r'known: property=(\S+) harness=(\S+) replay=(\S+) (.*)', line)
        if not m or m.group(1) != pid:
            continue
        for h, (exe, _, _) in zip(hs, built):
            if h['name'] != m.group(2):
                continue
            rc, out = run([exe, '--replay', os.path.join(VERIF, m.group(3)), '--tmp', bdir], 120, bdir)
            if rc == 1:
                print('KNOWN-FINDING: property=%s %s' % (pid, m.group(4)))
                known.append(m.group(4))
    wall = time.time() - t0
    ev = {
        'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': c.get('level', 'exploration'),
        'coverage': {
            'evaluations': agg['evaluations'], 'distinct_nontrivial': agg['distinct'], 'rule': c['rule'],
            'samples': [s for s in agg['samples'] if s][:24] or ['(no sample: the run ended at a violation)'],
            'discards': agg['discards'], 'cases_per_generator': agg['perProp'], 'labels': agg['labels'],
            'notes': notes, 'known_findings': known,
        },
        'wall_s': round(wall, 1), 'violations': len(violations), 'assumptions': c.get('assumptions', []),
    }
    if violations:
        ev['violation_details'] = violations
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1)
    print('property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d build=%.1fs wall=%.1fs' % (pid, tier, seed, agg['evaluations'], agg['distinct'], tb - t0, wall))
    for v in violations:
        print('  %s: %s' % (v['case'], v['msg'][:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, v['replay']))
    if not violations and agg['evaluations'] == 0:
        return 2
    return 1 if violations else 0


def confirm(pid, h, exe, f, tmp, flaky):
    path = write_replay(pid, h, f)
    if flaky:
        # schedule dependent: replay many times, several at once
        hits = 0
        t0 = time.time()
        while hits < 2 and time.time() - t0 < 150:
            ps = []
            for i in range(8):
                d = os.path.join(tmp, 'r%d' % i)
                os.makedirs(d, exist_ok=True)
                ps.append(subprocess.Popen([exe, '--replay', path, '--tmp', d, '--flaky', '1'], cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL))
            for p in ps:
                out = p.communicate()[0].decode('utf8', 'replace')
                if p.returncode == 1:
                    hits += 1
                    f = dict(f, msg=out.split('\n')[0][:1500] or f['msg'])
        ok = hits >= 2
    else:
        ok = True
        for i in range(3):
            rc, out = run([exe, '--replay', path, '--tmp', tmp], 120, tmp)
            if rc != 1:
                ok = False
    if not ok:
        return None
    return {'case': h['name'] + '.' + f['prop'], 'msg': f['msg'], 'replay': path, 'note': f['note'][:3000]}


def fuzz(pid, h, exe, bdir, sec, seed, agg, notes):
    fexe, rc, out = build(h, bdir, fuzz=True)
    if rc:
        notes.append('fuzz build failed: ' + out[-500:])
        return None
    corpus = os.path.join(bdir, 'corpus_' + h['name'])
    art = os.path.join(bdir, 'art_' + h['name'])
    os.makedirs(corpus, exist_ok=True)
    os.makedirs(art, exist_ok=True)
    rc, out = run([fexe, corpus, '-fork=8', '-ignore_crashes=0', '-ignore_timeouts=1', '-ignore_ooms=1', '-max_total_time=%d' % sec, '-seed=%d' % (seed + 1), '-max_len=4096',
                   '-artifact_prefix=' + art + '/', '-timeout=30', '-rss_limit_mb=4096', '-print_final_stats=1', '-close_fd_mask=1'], sec + 200, art)
    execs = re.findall(r'#(\d+): cov: (\d+)', out)
    if execs:
        agg['labels'][h['name'] + '.libfuzzer/execs'] = int(execs[-1][0])
        agg['labels'][h['name'] + '.libfuzzer/cov'] = int(execs[-1][1])
        agg['evaluations'] += int(execs[-1][0])
    for a in sorted(os.listdir(art)):
        if not a.startswith('crash-'):
            continue
        tmp = os.path.join(bdir, 't_' + h['name'])
        outf = os.path.join(tmp, 'fz.json')
        rc, o = run([exe, '--bytes', os.path.join(art, a), '--out', outf, '--tmp', tmp], 200, tmp)
        if rc == 1:
            res = json.load(open(outf))
            v = confirm(pid, h, exe, res['failure'], tmp, 0)
            if v:
                return v
        notes.append('libFuzzer artifact not confirmed by the g++ harness: ' + a)
    return None


if __name__ == '__main__':
    sys.exit(main())
