#!/usr/bin/env python3
"""Runs the check of one property: tools/check.py <property> [quick|thorough]

Builds the simulator from /repo's working tree, makes sure runs are repeatable, searches seeds of the property's
profile (and, with a part of the time, of the other profiles) on all cores, minimises the first violation of the
property into a replay file and writes evidence/<property>.json.
Exit 0: held on everything explored; 1: VIOLATION line; 2: the check itself could not be carried out.
"""
import fcntl, glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time, queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import build as B

VSIM = os.path.join(B.B, 'vsim')
GRPC = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C12', 'C13', 'C14', 'C16', 'C17']
ALONE = ['C11', 'C15']
QUICK_S = {'C11': 55, 'C15': 30}
T0 = time.time()


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def fail(text):
    print('ERROR: ' + text, flush=True)
    sys.exit(2)


def tags_of(vline):
    # "V seed tags | text" (batch) or "V tags | text"
    head, _, text = vline.partition(' | ')
    parts = head.split()[1:]
    if parts and parts[0].isdigit():
        return int(parts[0]), parts[1:], text
    return None, parts, text


def concerns(prop, tags):
    return prop in tags or '*' in tags


def norm(text):
    text = re.sub(r'\(.*?\)', '', text)
    return re.sub(r'[0-9]+', '#', text)[:70]


class Search:
    def __init__(self, prop, seed, seconds, jobs):
        self.prop, self.seconds, self.jobs = prop, seconds, jobs
        self.base = seed * 10000000
        self.lock = threading.Lock()
        self.stop = False
        self.found = []            # (profile, seed, tags, text)
        self.other = []            # violations of other properties seen on the way
        self.errors = []
        self.tot = {}
        self.fired, self.probes = {}, {}
        self.scheds, self.hists = set(), set()
        self.cov = 0
        self.perProfile = {}
        self.procs = set()
        self.chunk = 0
        others = [p for p in GRPC if p != prop]
        self.others = [] if prop in ALONE else others
        self.nextOwn = self.base + 1
        self.nextOther = {p: self.base + 5000001 for p in others}
        self.rot = 0

    def task(self, worker):
        n = 40 if self.chunk < self.jobs * 2 else 120
        with self.lock:
            self.chunk += 1
            if self.others and self.chunk % 6 == 0:
                p = self.others[self.rot % len(self.others)]
                self.rot += 1
                first = self.nextOther[p]
                self.nextOther[p] += n
                return p, first, n
            first = self.nextOwn
            self.nextOwn += n
            return self.prop, first, n

    def work(self, worker, deadline):
        while not self.stop and time.time() < deadline - 0.5:
            prof, first, n = self.task(worker)
            left = max(1.0, deadline - time.time())
            p = subprocess.Popen([VSIM, 'batch', prof, str(first), str(n), '1', '%.1f' % left], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
            with self.lock:
                self.procs.add(p)
            for row in p.stdout:
                row = row.rstrip('\n')
                k = row[:2]
                if k == 'V ':
                    seed, tags, text = tags_of(row)
                    with self.lock:
                        if concerns(self.prop, tags):
                            self.found.append((prof, seed, tags, text))
                            if len(self.found) >= 3:
                                self.stop = True
                        else:
                            self.other.append((prof, seed, tags, text))
                elif k == 'E ':
                    with self.lock:
                        self.errors.append(prof + ' ' + row[2:])
                        self.stop = True
                elif k == 'S ':
                    with self.lock:
                        for kv in row[2:].split():
                            a, _, b = kv.partition('=')
                            self.tot[a] = self.tot.get(a, 0) + float(b)
                            if a == 'runs':
                                self.perProfile[prof] = self.perProfile.get(prof, 0) + int(b)
                elif k in ('F ', 'P '):
                    _, a, b, name = row.split(' ', 3)
                    d = self.fired if k == 'F ' else self.probes
                    with self.lock:
                        x = d.setdefault(name, [0, 0])
                        x[0] += int(a)
                        x[1] += int(b)
                elif k == 'D ':
                    with self.lock:
                        self.scheds.add(row[2:])
                elif k == 'G ':
                    with self.lock:
                        self.hists.add(row[2:])
                elif k == 'C ':
                    with self.lock:
                        self.cov |= int(row[2:], 16)
                if self.stop and self.found and k == 'V ':
                    break
            err = ''
            if self.stop:
                p.terminate()
            else:
                err = p.stderr.read()
            p.wait()
            with self.lock:
                self.procs.discard(p)
                if p.returncode != 0 and not self.stop:
                    self.errors.append('batch %s %d ended with %d: %s' % (prof, first, p.returncode, err[-300:]))
                    self.stop = True

    def run(self):
        deadline = time.time() + self.seconds
        ts = [threading.Thread(target=self.work, args=(i, deadline)) for i in range(self.jobs)]
        for t in ts:
            t.start()
        while any(t.is_alive() for t in ts):
            time.sleep(0.05)
            if self.stop:
                with self.lock:
                    for p in list(self.procs):
                        try:
                            p.terminate()
                        except OSError:
                            pass
        for t in ts:
            t.join()


def hashes(prof, first, n):
    r = subprocess.run([VSIM, 'batch', prof, str(first), str(n), '1', '0', 'hashes'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace')
    return [x for x in r.stdout.splitlines() if x[:2] in ('H ', 'V ', 'E ')]


def repeatable(prop, seed, tmp):
    """The same seeds twice in different processes, and recorded schedules replayed, must give the same executions."""
    first = seed * 10000000 + 9000001
    res = {}

    def one(k):
        res[k] = hashes(prop, first, 10)
    ts = [threading.Thread(target=one, args=(k,)) for k in (0, 1)]
    rec = []

    def two(s):
        r = subprocess.run([VSIM, 'record', prop, str(s)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace').stdout
        f = os.path.join(tmp, 'det%d' % s)
        open(f, 'w').write(r)
        a = [x for x in r.splitlines() if x[:2] in ('R ', 'V ')]
        b = [x for x in subprocess.run([VSIM, 'replay', f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace').stdout.splitlines() if x[:2] in ('R ', 'V ')]
        rec.append((s, a, b))
    ts += [threading.Thread(target=two, args=(first + i,)) for i in range(4)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if res[0] != res[1]:
        for a, b in zip(res[0], res[1]):
            if a != b:
                return 0, 'a seed did not repeat: %s / %s' % (a[:200], b[:200])
        return 0, 'a seed did not repeat'
    for s, a, b in rec:
        if a != b:
            return 0, 'seed %d: replaying its schedule gave another execution: %s / %s' % (s, a[:1], b[:1])
    return 10 + len(rec), ''


class Replayer:
    def __init__(self, prop, key, tmp):
        self.prop, self.key, self.tmp = prop, key, tmp
        self.n = 0

    def run(self, plan, dec, pre):
        self.n += 1
        f = os.path.join(self.tmp, 'min%d' % self.n)
        with open(f, 'w') as o:
            o.write('\n'.join(plan + dec + pre) + '\n')
        r = subprocess.run([VSIM, 'replay', f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace').stdout
        os.unlink(f)
        return r

    def bad(self, plan, dec, pre):
        r = self.run(plan, dec, pre)
        for row in r.splitlines():
            if row.startswith('V '):
                _, tags, text = tags_of(row)
                if concerns(self.prop, tags) and norm(text) == self.key:
                    return row
        return None


def batch_bad(rep, cands):
    """first of the candidates (in order) that still fails, tried in parallel"""
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(min(8, max(1, len(cands)))) as ex:
        for i, r in enumerate(ex.map(lambda c: rep.bad(*c), cands)):
            if r:
                return i
    return None


def ddmin(items, test, deadline):
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        size = max(1, len(items) // n)
        cands = []
        for i in range(0, len(items), size):
            cands.append(items[:i] + items[i + size:])
        hit = test(cands)
        if hit is not None:
            items = cands[hit]
            n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(items), n * 2)
    return items


def minimise(prop, prof, seed, text, tmp, seconds):
    r = subprocess.run([VSIM, 'record', prof, str(seed)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace').stdout
    plan, dec, pre = [], [], []
    for row in r.splitlines():
        if row.startswith('decision '):
            dec.append(row)
        elif row.startswith('preempt '):
            pre.append(row)
        elif re.match(r'^(plan|sched|chan|client|world|op|beh|qml|cod|plug|file|th|step) ', row):
            plan.append(row)
    rep = Replayer(prop, norm(text), tmp)
    crashed = 'decision' not in r and 'crash' in r
    first = rep.bad(plan, dec, pre)
    if not first:
        return None
    deadline = time.time() + seconds
    fixed = [i for i, l in enumerate(plan) if l.split()[0] in ('plan', 'sched')]
    head = [plan[i] for i in fixed]
    body = [l for i, l in enumerate(plan) if i not in fixed]
    if rep.bad(plan, [], []):
        dec, pre = [], []
    else:
        if rep.bad(plan, dec, []):
            pre = []
        if rep.bad(plan, [], pre):
            dec = []
    body = ddmin(body, lambda cs: batch_bad(rep, [(head + c, dec, pre) for c in cs]), deadline)
    if pre:
        pre = ddmin(pre, lambda cs: batch_bad(rep, [(head + body, dec, c) for c in cs]), deadline)
    if dec:
        dec = ddmin(dec, lambda cs: batch_bad(rep, [(head + body, c, pre) for c in cs]), deadline)
    body = ddmin(body, lambda cs: batch_bad(rep, [(head + c, dec, pre) for c in cs]), deadline)
    a, b = rep.bad(head + body, dec, pre), rep.bad(head + body, dec, pre)
    if not a or a != b:
        return None
    return head + body, dec, pre, a, rep.n


def known(prop):
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'open: property=(\S+) key="(.*?)" (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    seconds = float(os.environ.get('VSIM_SECONDS', QUICK_S.get(prop, 60) if tier == 'quick' else 900))
    jobs = int(os.environ.get('VSIM_JOBS', os.cpu_count() or 8))
    if not B.build():
        fail('the simulator could not be built from /repo')
    tmp = tempfile.mkdtemp(prefix='vsim-check-')
    os.environ['VSIM_TMP'] = tmp
    os.environ['VSIM_PLUGINS'] = os.path.join(B.B, 'plugins')
    log('built')
    try:
        return run(prop, tier, seed, seconds, jobs, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, tier, seed, seconds, jobs, tmp):
    checked, why = repeatable(prop, seed, tmp)
    # code that reads freed or uninitialised memory may well not repeat: the search then has to find that
    if why:
        log('not repeatable: ' + why)
    s = Search(prop, seed, seconds, jobs)
    t1 = time.time()
    s.run()
    wall = time.time() - t1
    runs = int(s.tot.get('runs', 0))
    log('%d runs, %d violation(s) of %s, %d of other properties' % (runs, len(s.found), prop, len(s.other)))
    if s.errors:
        fail('simulation error: ' + s.errors[0])
    rc, lines, replay = 0, [], None
    kn = known(prop)
    listed = set()
    for k, what in kn:
        lines.append('KNOWN-FINDING: property=%s %s' % (prop, what))
        listed.add(k)
    new = [f for f in s.found if norm(f[3]) not in listed]
    unreproduced = []
    new.sort(key=lambda f: (f[0] != prop,))
    for f in new:
        prof, sd, tags, text = f
        log('violation in %s seed %d: %s' % (prof, sd, text))
        m = minimise(prop, prof, sd, text, tmp, 60 if tier == 'quick' else 300)
        if not m:
            unreproduced.append(f)
            continue
        plan, dec, pre, row, tried = m
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, '%s-%s-%d.replay' % (prop, prof, sd))
        with open(replay, 'w') as o:
            o.write('# %s: %s\n# found in profile %s, seed %d; minimised in %d replays. Re-execute: build/vsim replay %s -v\n' % (prop, row[2:], prof, sd, tried, replay))
            o.write('\n'.join(plan + dec + pre) + '\n')
        log('minimised to %d plan lines, %d decisions, %d preemptions: %s' % (len(plan), len(dec), len(pre), row[2:]))
        lines.append('VIOLATION property=%s replay=%s' % (prop, replay))
        rc = 1
        break
    if not rc and unreproduced:
        # e.g. memory already corrupted: the seed itself is the replay
        for prof, sd, tags, text in unreproduced:
            n = 0
            for _ in range(3):
                r = subprocess.run([VSIM, 'run', prof, str(sd)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace').stdout
                n += any(concerns(prop, tags_of(x)[1]) for x in r.splitlines() if x.startswith('V '))
            if n:
                d = os.path.join(VERIF, 'replays')
                os.makedirs(d, exist_ok=True)
                replay = os.path.join(d, '%s-%s-%d.replay' % (prop, prof, sd))
                r = subprocess.run([VSIM, 'record', prof, str(sd)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace').stdout
                with open(replay, 'w') as o:
                    o.write('# %s: %s\n# seed %d of profile %s (fails in %d of 3 executions). Re-execute: build/vsim run %s %d\n' % (prop, text, sd, prof, n, prof, sd))
                    o.write(r)
                lines.append('VIOLATION property=%s replay=%s' % (prop, replay))
                rc = 1
                break
        if not rc:
            for prof, sd, tags, text in unreproduced:
                log('seen once, in none of its repetitions, so not reported: %s seed %d: %s' % (prof, sd, text))
    if not rc and runs < 20:
        fail('only %d runs were possible' % runs)
    samples = []
    for i in range(2):
        sd = s.base + 1 + i
        p = subprocess.run([VSIM, 'run', prop, str(sd)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace').stdout.splitlines()
        pl = subprocess.run([VSIM, 'plan', prop, str(sd)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace').stdout.splitlines()
        samples.append({'profile': prop, 'seed': sd, 'plan': pl[:25], 'history_events': sum(1 for x in p if x.startswith('#')),
                        'history_head': [x[2:] for x in p if x.startswith('#')][:12], 'result': [x for x in p if x[:2] in ('R ', 'V ')]})
    hours = max(wall, 1e-6) / 3600
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(time.time() - T0, 2), 'violations': 1 if rc else 0,
        'coverage': {
            'evaluations': runs,
            'distinct_nontrivial': len(s.hists),
            'rule': 'one evaluation is one simulated execution of a seed-generated plan (world, operations, server and network behaviour, faults, scheduling parameters); '
                    'it counts as distinct and non-trivial when at least one fault was injected, at least 8 events were recorded and no other execution had the same history hash',
            'samples': samples,
            'runs_by_profile': s.perProfile,
            'seeds_per_hour': int(runs / hours),
            'simulated_seconds': int(s.tot.get('simsec', 0)),
            'distinct_schedules': len(s.scheds),
            'distinct_schedules_measure': 'hash over the sequence of scheduling choices (thread, point) of a run',
            'repository_basic_blocks_reached': bin(s.cov).count('1'),
            'scheduling_points': int(s.tot.get('steps', 0)), 'thread_switches': int(s.tot.get('switches', 0)), 'preemptions': int(s.tot.get('preempts', 0)),
            'clock_jumps': int(s.tot.get('jumps', 0)), 'history_events': int(s.tot.get('events', 0)),
            'faults_injected': {k: {'times': v[0], 'runs': v[1]} for k, v in sorted(s.fired.items())},
            'rare_conditions_reached': {k: {'times': v[0], 'runs': v[1]} for k, v in sorted(s.probes.items())},
            'repeatability': '%d executions compared with a second execution of the same seed or with the replay of their recorded schedule: %s' % (checked, 'identical' if not why else why),
            'real_components': ['src/grpc', 'src/protobuf (JSON serializer left out as in the build)', 'src/qttypes', 'src/grpc/quick/qquickgrpcstream', 'src/generator (generates the messages and client used)', 'Qt5 Core event loops, timers, threads', 'libprotobuf as reference codec on the server side'],
            'stubbed_components': ['QNetworkAccessManager request execution (simulated network and HTTP/2 server)', 'gRPC core call operations (simulated)', 'clocks, sleeping, poll, mutexes, futexes, thread creation (deterministic scheduler)'],
        },
        'assumptions': ['what is not reached by the explored seeds is not covered', 'the simulated network delivers bytes of one connection in order, as TCP does',
                        'instruction-level interleavings inside one basic block are not explored'],
    }
    if unreproduced and not rc:
        ev['coverage']['seen_once_and_not_reproduced'] = ['%s seed %d: %s' % (a, b, d) for a, b, c, d in unreproduced]
    if s.other:
        ev['coverage']['violations_of_other_properties_seen'] = ['%s seed %d: %s | %s' % (a, b, ' '.join(c), d) for a, b, c, d in s.other[:10]]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as o:
        json.dump(ev, o, indent=1)
    for l in lines:
        print(l, flush=True)
    if not rc:
        log('held on everything explored')
    return rc


if __name__ == '__main__':
    sys.exit(main())
