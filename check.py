#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: run the check of one property.

Builds the driver from /repo's working tree, runs it in shards, replays every
violation on its own before believing it, sets aside the listed known findings,
and writes evidence/<ID>.json.  Exit 0: held on everything explored.  Exit 1:
VIOLATION line printed.  Exit 2: the check itself could not run.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from checks import CHECKS


def known(prop):
    """instance id -> description, for findings of this property."""
    out = {}
    for line in open(os.path.join(HERE, 'known_findings.txt')):
        m = re.match(r'KNOWN-FINDING: property=(\S+) instance=(.*?) :: (.*)', line.strip())
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3)
    return out


def parse(path):
    vs, done = [], None
    try:
        for line in open(path, errors='replace'):
            try:
                j = json.loads(line)
            except ValueError:
                continue
            if 'violation' in j:
                vs.append((j['violation'], j.get('detail', '')))
            elif 'done' in j:
                done = j
    except OSError:
        pass
    return vs, done


def current(path):
    try:
        return open(path, 'rb').read().split(b'\0')[0].decode(errors='replace')
    except OSError:
        return ''


class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.spec = CHECKS[prop]
        self.tmp = tempfile.mkdtemp(prefix='vc_%s_' % prop)
        self.n = 0

    def cmd(self, part, extra, tag):
        scratch = os.path.join(self.tmp, 's' + tag)
        os.makedirs(scratch, exist_ok=True)
        return [os.path.join(HERE, 'build', part['target'])] + part.get('args', []) + [
            '--tier', self.tier, '--seed', str(self.seed), '--out', os.path.join(self.tmp, 'o' + tag),
            '--cur', os.path.join(self.tmp, 'c' + tag), '--scratch', scratch] + extra

    def env(self, part):
        e = dict(os.environ)
        for k in list(e):
            if k.startswith('GCS_'):
                del e[k]
        e.update(part.get('env', {}))
        return e

    def replay(self, part, inst):
        """True, detail if the instance fails on its own."""
        self.n += 1
        tag = 'r%d' % self.n
        try:
            p = subprocess.run(self.cmd(part, ['--only', inst, '--limit', '120'], tag), stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL, env=self.env(part), timeout=300)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            return True, 'does not finish within 300 s'
        vs, done = parse(os.path.join(self.tmp, 'o' + tag))
        for i, d in vs:
            if i == inst:
                return True, d
        if rc == -signal.SIGALRM:
            return True, 'does not finish within 120 s'
        if rc != 0 or done is None:
            return True, 'the process dies (exit status %d)' % rc
        return False, ''

    def run(self):
        t0 = time.time()
        spec = self.spec
        parts = spec['parts']
        targets = sorted({p['target'] for p in parts})
        b = subprocess.run([os.path.join(HERE, 'build.sh')] + targets)
        if b.returncode:
            print(open(os.path.join(HERE, 'build/ninja.log')).read()[-3000:])
            print('check: build failed')
            return 2
        budget = 780 if self.tier == 'quick' else 6 * 3600
        counts, samples, failures, complete = Counter(), [], [], True
        for pi, part in enumerate(parts):
            shards = part.get('shards', 8)
            procs = []
            for i in range(shards):
                tag = '%d_%d' % (pi, i)
                extra = ['--shard', '%d/%d' % (i, shards)]
                err = open(os.path.join(self.tmp, 'e' + tag), 'wb')
                procs.append((tag, extra, subprocess.Popen(self.cmd(part, extra, tag), stdout=subprocess.DEVNULL, stderr=err, env=self.env(part))))
            for tag, extra, p in procs:
                capped = False
                try:
                    rc = p.wait(timeout=max(1, budget - (time.time() - t0)))
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    rc, capped, complete = 0, True, False
                vs, done = parse(os.path.join(self.tmp, 'o' + tag))
                failures += [(part, i, d) for i, d in vs]
                if done:
                    counts.update(done['counts'])
                    samples += done['samples'][:2]
                elif not capped:
                    inst = current(os.path.join(self.tmp, 'c' + tag))
                    complete = False
                    failures.append((part, inst, 'the process dies (exit status %d)' % rc))
        listed = known(self.prop)
        seen_known, confirmed, flaky = set(), [], []
        for part, inst, detail in failures:
            if inst in listed:
                seen_known.add(inst)
        for part, inst, detail in failures:
            if inst in listed or len(confirmed) >= 3 or len(flaky) >= 5:
                continue
            ok, d = self.replay(part, inst)
            (confirmed if ok else flaky).append((part, inst, d or detail))
        for inst in sorted(seen_known):
            print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, inst, listed[inst]))
        for part, inst, d in flaky:
            print('check: %s failed in the full run (%s) but not when replayed alone' % (inst, d))
        # A failure that needs the instances before it (state left behind in the
        # process) is confirmed by running its whole shard again.
        if flaky and not confirmed:
            again = self.rerun_shards(parts, [f[1] for f in flaky])
            confirmed += again
        cov = {k: v for k, v in sorted(counts.items())}
        names = spec['evidence']
        coverage = {
            'states': sum(counts[k] for k in names['states']),
            'transitions': sum(counts[k] for k in names['transitions']),
            'traces_validated_against_impl': sum(counts[k] for k in names['traces']),
            'meaning': names['meaning'],
            'samples': samples[:8],
            'exhaustive': complete and not flaky,
            'bounds': spec['bounds'][self.tier] if isinstance(spec['bounds'], dict) else spec['bounds'],
            'counts': cov,
        }
        if spec['level'] in ('fault_enumeration', 'exploration'):
            coverage['evaluations'] = coverage['traces_validated_against_impl']
            coverage['distinct_nontrivial'] = sum(counts[k] for k in names.get('nontrivial', names['traces']))
            coverage['rule'] = names['meaning']
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': spec['level'], 'coverage': coverage,
              'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(confirmed)}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        if not confirmed:
            if coverage['traces_validated_against_impl'] == 0 and not failures:
                print('check: nothing was explored')
                return 2
            print('%s: held on %d runs of the implementation (%s), %.1f s' % (self.prop, coverage['traces_validated_against_impl'], self.tier, time.time() - t0))
            return 0
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        for k, (part, inst, d) in enumerate(confirmed):
            path = 'replays/%s-%d.txt' % (self.prop, k + 1)
            with open(os.path.join(HERE, path), 'w') as f:
                f.write('property: %s\ninstance: %s\nfailure: %s\nreplay: build/%s %s --tier %s --seed %d --only %r\n' % (
                    self.prop, inst, d, part['target'], ' '.join(part.get('args', [])), self.tier, self.seed, inst))
            print('%s: %s' % (inst, d))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        return 1

    def rerun_shards(self, parts, insts):
        out = []
        for pi, part in enumerate(parts):
            shards = part.get('shards', 8)
            ps = []
            for i in range(shards):
                tag = 'again%d_%d' % (pi, i)
                ps.append((tag, subprocess.Popen(self.cmd(part, ['--shard', '%d/%d' % (i, shards)], tag), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=self.env(part))))
            for tag, p in ps:
                try:
                    p.wait(timeout=400 if self.tier == 'quick' else 6 * 3600)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    continue
                vs, done = parse(os.path.join(self.tmp, 'o' + tag))
                for i, d in vs:
                    if i in insts:
                        out.append((part, i, d + ' (only after the cases before it in its shard)'))
                if not done and current(os.path.join(self.tmp, 'c' + tag)) in insts:
                    out.append((part, current(os.path.join(self.tmp, 'c' + tag)), 'the process dies (only after the cases before it in its shard)'))
        return out[:3]


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    r = Runner(prop, tier if tier in ('quick', 'thorough') else 'quick', seed)
    try:
        return r.run()
    finally:
        shutil.rmtree(r.tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
