#!/usr/bin/env python3
"""Runs the check of one property: check.py C01 [quick|thorough], or replays a
saved counterexample: check.py --replay FILE.

Builds the harness (and with it the code in /repo) from the current working
tree, runs it in several processes with different seeds derived from VERIF_SEED,
merges what they covered into evidence/<id>.json.
Exit status: 0 the property held on everything explored, 1 it is violated
(with a VIOLATION line), anything else: the check itself could not decide.
"""
import array, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, 'harness')
GO = '/opt/veriftools/go1.27.3/bin'

# property: (package, race detector, processes in quick, processes in thorough)
CHECKS = {
    'C01': ('delta', False, 4, 6),
    'C02': ('delta', False, 4, 6),
    'C03': ('delta', False, 4, 6),
    'C04': ('delta', False, 4, 6),
    'C05': ('delta', False, 4, 6),
    'C06': ('recdb', False, 4, 6),
    'C07': ('index', False, 4, 6),
    'C08': ('index', False, 4, 6),
    'C09': ('recdb', False, 4, 6),
    'C10': ('recdb', False, 4, 6),
    'C11': ('recdb', False, 4, 6),
    'C12': ('domain', False, 4, 6),
    'C13': ('domain', False, 4, 6),
    'C14': ('helpers', False, 4, 6),
    'C15': ('domain', False, 4, 6),
    'C16': ('domain', False, 4, 6),
    'C17': ('domain', False, 4, 6),
    'C18': ('api', False, 4, 6),
    'C19': ('api', True, 4, 6),
    'C20': ('domain', True, 4, 6),
    'C21': ('domain', True, 4, 6),
    'C22': ('domain', False, 4, 6),
    'C23': ('helpers', False, 4, 6),
    'C24': ('recdb', False, 4, 6),
    'C25': ('domain', False, 4, 6),
    'C26': ('api', False, 4, 6),
    'C27': ('helpers', True, 4, 6),
    'C28': ('proc', False, 4, 6),
    'C29': ('recdb', False, 4, 6),
    'C30': ('api', False, 4, 6),
    'C31': ('recdb', False, 4, 6),
    'C32': ('recdb', False, 4, 6),
}
# level of verification other than exploration
LEVELS = {p: 'fault_enumeration' for p in ('C03', 'C05', 'C08')}
SHARD_TIMEOUT = {'quick': 600, 'thorough': 3 * 3600}
MEMORY = 4 << 30
HANG, RACE, OURS = 71, 66, 70


def go_env():
    env = dict(os.environ)
    env['PATH'] = GO + ':' + env.get('PATH', '/usr/local/bin:/usr/bin:/bin')
    env.setdefault('HOME', '/root')
    env.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off',
               GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod')
    env.setdefault('GOCACHE', '/root/.cache/go-build')
    return env


class Undecided(Exception):
    pass


def build(pkg, race, out):
    cmd = ['go', 'test', '-c', '-vet=off', '-o', out] + (['-race'] if race else []) + ['./' + pkg]
    r = subprocess.run(cmd, cwd=HARNESS, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Undecided('cannot build the harness:\n' + r.stdout)


class Shard:
    def __init__(self, binary, prop, tier, number, work, extra=None):
        self.out = os.path.join(work, 'shard%s' % number)
        scratch = os.path.join(self.out, 'scratch')
        os.makedirs(scratch)
        env = go_env()
        env.update(VERIF_OUT=self.out, VERIF_SCRATCH=scratch, TMPDIR=scratch, VERIF_TIER=tier, VERIF_HARNESS=HARNESS, VERIF_KNOWN=','.join(known_findings(prop)),
                   VERIF_SHARD=str(number) if isinstance(number, int) else '0',
                   GORACE='halt_on_error=1 exitcode=%d' % RACE, GOTRACEBACK='all')
        env['VERIF_SEED'] = os.environ.get('VERIF_SEED', '1')
        for name in ('REC_PATH', 'REC_HOST', 'REC_PORT'):
            env.pop(name, None)
        env.update(extra or {})
        self.log = os.path.join(self.out, 'log')
        self.deadline = time.time() + SHARD_TIMEOUT[tier]
        # What takes more memory than this is to die itself instead of getting the biggest process killed
        # (the race detector maps its shadow memory in the same way)
        limit = None if CHECKS[prop][1] else lambda: resource.setrlimit(resource.RLIMIT_DATA, (MEMORY, MEMORY))
        with open(self.log, 'w') as log:
            self.proc = subprocess.Popen([binary, '-test.run', '^Test%s$' % prop, '-test.timeout', '0'], cwd=scratch,
                                         env=env, stdin=subprocess.DEVNULL, stdout=log, stderr=log,
                                         start_new_session=True, preexec_fn=limit)

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()

    def text(self):
        with open(self.log, errors='replace') as f:
            return f.read()

    def result(self):
        try:
            with open(os.path.join(self.out, 'result.json')) as f:
                return json.load(f)
        except FileNotFoundError:
            return None

    def journal(self):
        """The case that was being run when the process died."""
        try:
            with open(os.path.join(self.out, 'journal'), 'rb') as f:
                n = int.from_bytes(f.read(8), 'big')
                m = int.from_bytes(f.read(8), 'big')
                if n == 0:
                    return None
                sub = f.read(n).decode()
                return sub, json.loads(f.read(m))
        except (FileNotFoundError, ValueError):
            return None


def brief(text, limit=6000):
    return text if len(text) <= limit else text[:limit // 2] + '\n[...]\n' + text[-limit // 2:]


def save_replay(failure):
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    base = os.path.join(HERE, 'replays', '%s-%s' % (failure['property'], re.sub(r'[^a-zA-Z0-9]+', '-', failure['sub'])))
    path = base + '.json'
    with open(path, 'w') as f:
        json.dump(failure, f, indent=1)
        f.write('\n')
    return path


def replay_once(binary, prop, tier, work, path, name, times):
    """Replays in a fresh process. Returns (violated, message)."""
    s = Shard(binary, prop, tier, name, work, {'VERIF_REPLAY': os.path.abspath(path), 'VERIF_TIMES': str(times)})
    try:
        s.proc.wait(SHARD_TIMEOUT['quick'])
    except subprocess.TimeoutExpired:
        s.kill()
        raise Undecided('the replay exceeded its time')
    finally:
        s.kill()
    res = s.result()
    if res and res.get('failure'):
        return True, res['failure']['message']
    if s.proc.returncode == 0:
        return False, ''
    if s.proc.returncode in (OURS, -signal.SIGKILL):
        raise Undecided('the replay failed:\n' + brief(s.text()))
    return True, death(s.text())


def death(text):
    m = re.search(r'(WARNING: DATA RACE|fatal error: .*|panic: .*|runtime: .*)', text)
    return 'the process died: ' + (m.group(1) if m else 'unknown reason') + '\n' + brief(text)


def examine(shard, binary, prop, tier, work):
    """Returns the failure found by a finished shard, or None."""
    res, rc = shard.result(), shard.proc.returncode
    if res and res.get('failure'):
        failure = res['failure']
        if failure.get('hang'):
            # A case that doesn't end must not end again in a fresh process
            path = save_replay(failure)
            again, _ = replay_once(binary, prop, tier, work, path, 'confirm', 1)
            if not again:
                raise Undecided('a case did not end, but does when replayed:\n' + brief(shard.text()))
        return failure
    if rc == 0 and res and res.get('done'):
        return None
    text = shard.text()
    if rc in (OURS, -signal.SIGKILL, -signal.SIGTERM):
        raise Undecided('shard failed (status %s):\n%s' % (rc, brief(text)))
    # The process died: find out whether the code under test is to blame
    found = shard.journal()
    if not found:
        raise Undecided('shard died outside of any case (status %s):\n%s' % (rc, brief(text)))
    failure = {'property': prop, 'sub': found[0], 'case': found[1], 'message': death(text)}
    path = save_replay(failure)
    again, _ = replay_once(binary, prop, tier, work, path, 'confirm', 200)
    proof = 'DATA RACE' in text or 'concurrent map' in text
    if not again and not proof:
        os.remove(path)
        raise Undecided('shard died, the case does not reproduce (status %s):\n%s' % (rc, brief(text)))
    return failure


def run_shards(binary, prop, tier, n, work):
    running = [Shard(binary, prop, tier, i, work) for i in range(n)]
    done, undecided = [], None
    try:
        while running:
            for s in list(running):
                try:
                    if s.proc.poll() is None:
                        if time.time() <= s.deadline:
                            continue
                        running.remove(s)
                        s.kill()
                        raise Undecided('shard exceeded its time')
                    running.remove(s)
                    s.kill()  # whatever it has left behind
                    failure = examine(s, binary, prop, tier, work)
                except Undecided as e:
                    undecided = undecided or e  # another one may find a violation
                    continue
                if failure:
                    return done, failure
                done.append(s)
            time.sleep(0.02)
    finally:
        for s in running:
            s.kill()
    if undecided:
        raise undecided
    return done, None


def merge(shards):
    subs, hashes, rule = {}, set(), ''
    for s in shards:
        res = s.result()
        rule = res['rule']
        for r in res['subs']:
            m = subs.setdefault(r['sub'], {'evaluations': 0, 'classes': {}, 'samples': []})
            m['evaluations'] += r['evaluations']
            for k, v in (r['classes'] or {}).items():
                m['classes'][k] = m['classes'].get(k, 0) + v
            m['samples'] += r['samples'] or []
        a = array.array('Q')
        with open(os.path.join(s.out, 'hashes'), 'rb') as f:
            a.frombytes(f.read())
        hashes.update(a)
    samples = []
    for name, m in subs.items():
        samples += [{'generator': name, 'case': c} for c in m['samples'][:2]]
    return {
        'evaluations': sum(m['evaluations'] for m in subs.values()),
        'distinct_nontrivial': len(hashes),
        'rule': rule,
        'samples': samples,
        'generators': {k: {'evaluations': m['evaluations'], 'classes': dict(sorted(m['classes'].items()))}
                       for k, m in subs.items()},
    }


def known_findings(prop):
    """The listed findings of the property: their keys and lines."""
    path = os.path.join(HERE, 'KNOWN_FINDINGS')
    out = {}
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: (property=%s \[([a-z0-9-]+)\] .*)' % prop, line)
            if m:
                out[m.group(2)] = m.group(1).strip()
    return out


def check(prop, tier):
    start = time.time()
    pkg, race, quick_n, thorough_n = CHECKS[prop]
    n = quick_n if tier == 'quick' else thorough_n
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    os.chmod(work, 0o755)
    try:
        binary = os.path.join(work, 'harness.test')
        build(pkg, race, binary)
        done, failure = run_shards(binary, prop, tier, n, work)
        evidence = {'property': prop, 'tier': tier, 'seed': seed_number(), 'level': LEVELS.get(prop, 'exploration'),
                    'violations': 1 if failure else 0}
        if failure:
            path = save_replay(failure)
            evidence['coverage'] = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': 'stopped at a violation',
                                    'samples': [failure['case']], 'explanation': failure['message'][:2000]}
        else:
            evidence['coverage'] = merge(done)
            if evidence['coverage']['distinct_nontrivial'] == 0:
                raise Undecided('no non-trivial case was generated')
        evidence['coverage']['processes'] = n
        evidence['wall_s'] = round(time.time() - start, 2)
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
            f.write('\n')
        if failure:
            print('%s (%s): %s' % (prop, failure['sub'], brief(failure['message'])))
            print('case: ' + brief(json.dumps(failure['case']), 3000))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        for key, line in known_findings(prop).items():
            if any('known finding: ' + key in g['classes'] for g in evidence['coverage']['generators'].values()):
                print('KNOWN-FINDING: ' + line)
        c = evidence['coverage']
        print('%s held: %d cases, %d distinct non-trivial, %.1f s' %
              (prop, c['evaluations'], c['distinct_nontrivial'], evidence['wall_s']))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def seed_number():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


def replay(path):
    prop = json.load(open(path))['property']
    pkg, race = CHECKS[prop][:2]
    work = tempfile.mkdtemp(prefix='verif-replay-')
    os.chmod(work, 0o755)
    try:
        binary = os.path.join(work, 'harness.test')
        build(pkg, race, binary)
        bad, msg = replay_once(binary, prop, 'quick', work, path, 'replay', int(os.environ.get('VERIF_TIMES', '25')))
        if bad:
            print(msg)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        print('the replayed case passes')
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main(argv):
    try:
        if len(argv) == 3 and argv[1] == '--replay':
            return replay(argv[2])
        tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
        return check(argv[1], tier)
    except Undecided as e:
        print('UNDECIDED: %s' % e, file=sys.stderr)
        return 3


if __name__ == '__main__':
    sys.exit(main(sys.argv))
