#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough: decides one property on the current tree of /repo.

Every run extracts the code of /repo anew (tools/extract.py), compiles it against the assumed
contracts in model/ and lets Kani/CBMC discharge the obligations in harness/<property>.rs.
Exit 0: everything holds (or is undecided, and says so).  Exit 1 with a VIOLATION line: an
obligation fails.
"""
import json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(HERE, 'tools'))
import extract, verus

CFGS = {
    'epoll': ('e', ''),
    'poll': ('p', '--cfg polling_test_poll_backend'),
    'epoll-pipe': ('n', '--cfg polling_test_epoll_pipe'),
    'kqueue': ('K', '--cfg polling_verif_os'),
    'port': ('S', '--cfg polling_verif_os'),
}
KANI_FLAGS = ['-Z', 'unstable-options', '--no-assertion-reach-checks', '--no-memory-safety-checks']
T0 = time.time()


def log(*a):
    print(*a, flush=True)


def say(s):
    log('[%6.1fs] %s' % (time.time() - T0, s))


def letters(name):
    return name.split('__')[1].split('_') if '__' in name else []


def harnesses(prop, tier):
    """The harnesses of a property per configuration."""
    mod = prop.lower()
    if prop in VERUS_ONLY:
        return {}
    src = open(os.path.join(HERE, 'harness', mod + '.rs')).read()
    names = re.findall(r'^    (%s_\w+)\(\d+\)' % mod, src, re.M)
    r = {}
    for c in CFGS:
        for n in names:
            l = letters(n)
            if 't' in l and tier != 'thorough':
                continue
            oss = [x for x in l if x in ('K', 'S')]
            if c in ('kqueue', 'port'):
                if CFGS[c][0] not in oss:
                    continue
            elif oss and not any(x in l for x in ('e', 'p', 'n')):
                continue
            elif c == 'epoll' and 'p' in l:
                continue
            elif c == 'poll' and 'e' in l:
                continue
            elif c == 'epoll-pipe' and 'n' not in l:
                continue
            r.setdefault(c, []).append(n)
    return r


def scenarios(prop):
    """The scenarios of several threads of a property per configuration (bounded stand-in)."""
    src = open(os.path.join(HERE, 'harness', 'x.rs')).read()
    r = {}
    for n in re.findall(r'^    (%s_x_\w+) p' % prop.lower(), src, re.M):
        l = letters(n)
        for c in ('epoll', 'poll', 'epoll-pipe'):
            if c == 'epoll' and 'p' in l or c == 'poll' and 'e' in l or c == 'epoll-pipe' and 'n' not in l:
                continue
            r.setdefault(c, []).append(n)
    return r


def known_findings():
    """(property, harness, configuration, obligation) -> text"""
    r = {}
    p = os.path.join(HERE, 'known-findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'known: property=(\S+) harness=(\S+) config=(\S+) obligation="([^"]*)" (.*)', l)
        if m:
            r[m.group(1, 2, 3, 4)] = m.group(5)
    return r


def env(cfg, native=False, crowd=False):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('CARGO') and k not in ('CARGO_HOME',) or k.startswith('RUST') and k != 'RUSTUP_HOME':
            del e[k]
    e['CARGO_NET_OFFLINE'] = 'true'
    e.setdefault('HOME', '/root')
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/local/bin:/usr/bin:/bin')
    fl = CFGS[cfg][1]
    if native:
        fl += ' --cfg verif_replay'
    if crowd:
        fl += ' --cfg verif_crowd'
    if fl:
        e['RUSTFLAGS'] = fl.strip()
    return e


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.mod = prop.lower()
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.work = os.path.join(HERE, 'build', prop)
        self.replays = os.path.join(HERE, 'replays', prop)
        self.hard = 840 if tier == 'quick' else 6 * 3600
        self.htime = 240 if tier == 'quick' else 3600
        self.results = []       # dicts
        self.scen = []
        self.hist = []
        self.verus = []
        self.notes = []
        self.native_dirs = {}
        self.native_lock = threading.Lock()
        self.checker_cmds = []

    def left(self):
        return self.hard - (time.time() - T0)

    # -- extraction ---------------------------------------------------------------------------
    def extract(self, cfg, native=False):
        d = os.path.join(self.work, cfg + ('-native' if native else ''))
        extract.extract(REPO, d, cfg, os.path.join(HERE, 'harness'), os.path.join(HERE, 'model'),
                        kani=not native, only=self.mod)
        return d

    # -- Kani ---------------------------------------------------------------------------------
    def kani(self, cfg, names, jobs):
        d = self.extract(cfg)
        out = os.path.join(self.work, cfg + '.json')
        cmd = ['cargo', 'kani'] + KANI_FLAGS + ['--harness-timeout', '%ds' % self.htime, '-j', str(jobs),
               '--output-format', 'terse', '--export-json', out, '--exact']
        for n in names:
            cmd += ['--harness', 'verif_harness::%s::%s' % (self.mod, n)]
        self.checker_cmds.append('%s: RUSTFLAGS="%s" cargo kani %s --exact --harness ... (%d harnesses)' % (
            cfg, CFGS[cfg][1], ' '.join(KANI_FLAGS), len(names)))
        logf = os.path.join(self.work, cfg + '.log')
        with open(logf, 'w') as f:
            p = subprocess.Popen(cmd, cwd=d, env=env(cfg), stdout=f, stderr=subprocess.STDOUT,
                                 start_new_session=True)
            try:
                p.wait(timeout=max(30, self.left() - 60))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                self.notes.append('%s: the verifier was stopped at the time limit of the check' % cfg)
        txt = open(logf).read()
        got = {}
        if os.path.exists(out):
            try:
                j = json.load(open(out))
                st = {x['harness_id']: (x.get('cbmc_stats') or {}) for x in j.get('cbmc', [])}
                for r in j['verification_results']['results']:
                    got[r['harness_id'].split('::')[-1]] = (r, st.get(r['harness_id'], {}))
            except (ValueError, KeyError) as ex:
                self.notes.append('%s: unreadable result of the verifier (%s)' % (cfg, ex))
        else:
            # killed, or it does not compile: read what the log has
            if re.search(r'^error', txt, re.M) and not re.search(r'Checking harness', txt):
                err = re.search(r'^error.*(?:\n.*){0,6}', txt, re.M).group(0)
                self.notes.append('%s: the extracted code does not compile against the assumed contracts: %s'
                                  % (cfg, err[:400]))
        for n in names:
            rec = {'cfg': cfg, 'name': n, 'status': 'undecided', 'why': 'no result', 'checks': 0,
                   'discharged': 0, 'failed': [], 'covers': 0, 'covered': 0, 'uncovered': [], 'time': 0.0}
            if n in got:
                self.interpret(rec, *got[n])
            self.results.append(rec)

    def interpret(self, rec, r, st):
        rec['time'] = r.get('duration_ms', 0) / 1000.0
        rec['solver_s'] = st.get('runtime_decision_procedure_s') or 0
        rec['vccs'] = st.get('vccs_generated') or 0
        soft = []
        for c in r['checks']:
            s, d = c['status'], c['description'].strip('"')
            if s in ('Satisfied', 'Unsatisfiable'):
                rec['covers'] += 1
                if s == 'Satisfied':
                    rec['covered'] += 1
                else:
                    rec['uncovered'].append(d)
                continue
            rec['checks'] += 1
            if s == 'Success':
                rec['discharged'] += 1
            elif s == 'Failure':
                loc = c.get('location') or {}
                if d.startswith('unwinding assertion') or 'is not currently supported by Kani' in d \
                        or d.startswith('ghost:') or 'unsupported' in d.lower():
                    soft.append(d)
                else:
                    rec['failed'].append((d, '%s:%s in %s' % (loc.get('file'), loc.get('line'), c.get('function'))))
            elif s in ('Unreachable',):
                rec['discharged'] += 1
            else:
                soft.append('%s: %s' % (s, d))
        if rec['failed']:
            rec['status'], rec['why'] = 'failed', rec['failed'][0][0]
        elif soft:
            rec['why'] = soft[0]
        elif r['status'] != 'Success':
            rec['why'] = 'the verifier gave up (time or memory limit)'
        elif rec['checks'] == 0:
            rec['why'] = 'no obligation was generated'
        elif 'end of the harness is reachable' in rec['uncovered']:
            rec['status'], rec['why'] = 'vacuous', 'no run of the code reaches the end of the harness'
        else:
            rec['status'], rec['why'] = 'proved', ''

    # -- native replay ------------------------------------------------------------------------
    def native(self, cfg, crowd=False):
        """Builds the extracted code natively; returns the replay binary or None.  With `crowd` there is room
        for a great many sources."""
        with self.native_lock:
            if (cfg, crowd) in self.native_dirs:
                return self.native_dirs[cfg, crowd]
            d = self.extract(cfg, native=True)
            t = 'crowd' if crowd else 'target'
            p = subprocess.run(['cargo', 'build', '--bin', 'replay', '--target-dir', t], cwd=d, env=env(cfg, True, crowd),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            b = os.path.join(d, t, 'debug', 'replay')
            if p.returncode != 0 or not os.path.exists(b):
                self.notes.append('%s: native build failed: %s' % (cfg, p.stdout[-600:]))
                b = None
            self.native_dirs[cfg, crowd] = b
            return b

    def native_run(self, b, *args, timeout=20):
        try:
            p = subprocess.run([b] + list(args), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout, errors='replace')
            return p.returncode, p.stdout[-3000:]
        except subprocess.TimeoutExpired:
            return -1, 'the run does not end'

    def randomly(self, rec, n):
        """Native runs on random choices: (failing seed and output) or None, and how many ended."""
        b = self.native(rec['cfg'])
        if not b:
            return None, 0
        ended = 0
        for i in range(n):
            if self.left() < 30:
                break
            s = str(self.seed * 100003 + i)
            rc, out = self.native_run(b, rec['name'], 'seed', s)
            if rc == 101:
                return (s, out), ended
            if rc == 0:
                ended += 1
        return None, ended

    # -- schedules ----------------------------------------------------------------------------
    def explore(self, cfg, names):
        """Runs the scenarios natively under enumerated schedules."""
        b = self.native(cfg)
        for n in names:
            rec = {'cfg': cfg, 'name': n, 'runs': 0, 'bound': -1, 'random': 0, 'fail': None, 'out': ''}
            self.scen.append(rec)
            if not b:
                rec['out'] = 'not built'
                continue
            bound, secs = (2, 6) if self.tier == 'quick' else (4, 240)
            secs = max(1, min(secs, self.left() - 120))
            rc, out = self.native_run(b, n, 'explore', str(bound), '%.1f' % secs, str(self.seed), timeout=secs * 4 + 60)
            rec['out'] = out
            m = re.search(r'EXPLORED runs=(\d+) steps=(\d+) complete_bound=(-?\d+) random=(\d+)', out)
            if m:
                rec['runs'], rec['steps'], rec['bound'], rec['random'] = map(int, m.groups())
            elif rc == 101 and 'FAILED:' in out:
                rec['fail'] = re.search(r'FAILED: (.*)', out).group(1)
                m = re.search(r'SCHEDULE: (\S+)', out)
                rec['schedule'] = m.group(1) if m else ''

    # -- histories ----------------------------------------------------------------------------
    def histories(self, cfg, crowd=False):
        """Random long histories of the public API against a reference model (bounded stand-in)."""
        rec = {'cfg': cfg, 'runs': 0, 'operations': 0, 'fail': None, 'out': '', 'crowd': crowd}
        self.hist.append(rec)
        b = self.native(cfg, crowd)
        if not b:
            rec['out'] = 'not built'
            return
        secs = max(1, min(8 if self.tier == 'quick' else 600, self.left() - 120))
        rc, out = self.native_run(b, self.prop, 'histories', '%.1f' % secs, str(self.seed), timeout=secs + 60)
        rec['out'] = out
        m = re.search(r'HISTORIES runs=(\d+) operations=(\d+) cut=(\d+) other=(\d+)', out)
        if m:
            rec['runs'], rec['operations'], rec['cut'], rec['other'] = map(int, m.groups())
        elif rc == 101 and 'HISTORY:' in out:
            rec['fail'] = re.search(r'FAILED: (.*)', out).group(1)
            rec['seed'] = re.search(r'HISTORY: (\S+)', out).group(1)

    # -- Verus --------------------------------------------------------------------------------
    def prove(self, unit):
        with VERUS:
            r = verus.run(unit, REPO, os.path.join(self.work, 'verus'), max(30, min(240, self.left() - 120)))
        self.checker_cmds.append('verus %s (python3 tools/verus.py %s %s OUT.rs writes the text)' % (unit, REPO, unit))
        self.verus.append(r)

    def verus_violation(self, r, failures):
        """An obligation that the deductive verifier rejects; Verus gives no input, so look for one."""
        os.makedirs(self.replays, exist_ok=True)
        p = os.path.join(self.replays, 'verus.%s.json' % r['unit'])
        doc = {'property': self.prop, 'harness': self.prop, 'config': verus.CFG[r['unit']],
               'failed_obligations': [f[0] for f in failures], 'verifier': 'Verus', 'verifier_output': r['output'],
               'reproduced': False}
        tries = [(c, crowd) for crowd in (False, True) if not crowd or self.prop in CROWDS
                 for c in (('epoll', 'poll') if r['unit'] == 'lists' else (doc['config'],))]
        for cfg, crowd in tries if self.prop in HISTORIES else ():
            b = self.native(cfg, crowd)
            secs = max(1, min(60 / len(tries), self.left() - 60))
            if not b or self.left() < 30:
                continue
            rc, out = self.native_run(b, self.prop, 'histories', '%.1f' % secs, str(self.seed + 1000), timeout=secs + 60)
            if rc == 101 and 'HISTORY:' in out:
                doc.update(config=cfg, crowd=crowd, history=re.search(r'HISTORY: (\S+)', out).group(1), replay_output=out, reproduced=True)
                break
        doc['how'] = 'python3 /verif/tools/replay.py ' + p
        json.dump(doc, open(p, 'w'), indent=1)
        return p, doc['reproduced']

    def history_violation(self, rec):
        os.makedirs(self.replays, exist_ok=True)
        p = os.path.join(self.replays, 'histories%s.%s.json' % ('.crowd' if rec['crowd'] else '', rec['cfg']))
        rc, out = self.native_run(self.native(rec['cfg'], rec['crowd']), self.prop, 'histories', '0', rec['seed'])
        json.dump({'property': self.prop, 'harness': self.prop, 'config': rec['cfg'],
                   'failed_obligations': [rec['fail']], 'history': rec['seed'], 'crowd': rec['crowd'], 'replay_output': out,
                   'reproduced': rc == 101, 'how': 'python3 /verif/tools/replay.py ' + p}, open(p, 'w'), indent=1)
        return p, rc == 101

    def scenario_violation(self, rec):
        os.makedirs(self.replays, exist_ok=True)
        p = os.path.join(self.replays, '%s.%s.json' % (rec['name'], rec['cfg']))
        b = self.native(rec['cfg'])
        rc, out = self.native_run(b, rec['name'], 'schedule', rec['schedule'])
        json.dump({'property': self.prop, 'harness': rec['name'], 'config': rec['cfg'],
                   'failed_obligations': [rec['fail']], 'schedule': rec['schedule'], 'replay_output': out,
                   'reproduced': rc == 101, 'how': 'python3 /verif/tools/replay.py ' + p}, open(p, 'w'), indent=1)
        return p, rc == 101

    def playback(self, rec):
        """Asks the verifier for the failing input: list of byte vectors per failing obligation."""
        d = os.path.join(self.work, rec['cfg'])
        cmd = ['cargo', 'kani'] + KANI_FLAGS + ['-Z', 'concrete-playback', '--concrete-playback=print',
               '--exact', '--harness', 'verif_harness::%s::%s' % (self.mod, rec['name'])]
        try:
            p = subprocess.run(cmd, cwd=d, env=env(rec['cfg']), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=max(20, min(300, self.left() - 40)))
        except subprocess.TimeoutExpired:
            return [], 'no counterexample within the time limit'
        res = []
        for m in re.finditer(r'/// Check for `(\w+)`: (.*?)\n(.*?)concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];', p.stdout, re.S):
            vals = [[int(x) for x in v.split(',') if x.strip()] for v in re.findall(r'^\s*vec!\[([^\]]*)\]', m.group(4), re.M)]
            if m.group(1) != 'cover':
                res.append((m.group(2).strip().strip('"'), vals))
        i = p.stdout.find('SUMMARY:')
        return res, p.stdout[i:i + 4000]

    def confirm(self, rec):
        """A failed obligation: find and replay a failing input, write the replay file."""
        os.makedirs(self.replays, exist_ok=True)
        path = os.path.join(self.replays, '%s.%s.json' % (rec['name'], rec['cfg']))
        doc = {'property': self.prop, 'harness': rec['name'], 'config': rec['cfg'],
               'failed_obligations': rec['failed'] or [rec['why']],
               'reproduced': False}
        if rec['status'] == 'failed':
            cands, doc['verifier_output'] = self.playback(rec)
            b = self.native(rec['cfg'])
            for d, vals in cands:
                if not b:
                    break
                doc['values'], doc['obligation'] = vals, d
                json.dump(doc, open(path, 'w'), indent=1)
                rc, out = self.native_run(b, rec['name'], 'values', path)
                doc['replay_output'], doc['replay_exit'] = out, rc
                if rc == 101 or rc == -1:
                    doc['reproduced'] = True
                    break
        if not doc['reproduced']:
            f, ended = self.randomly(rec, 300)
            if f:
                doc['reproduced'], doc['random_seed'], doc['replay_output'] = True, f[0], f[1]
            doc['random_runs_that_end'] = ended
            if rec['status'] == 'vacuous' and not f and ended:
                # some runs do end: the verifier cut them off for another reason
                return None
        doc['how'] = 'python3 /verif/tools/replay.py %s' % path
        json.dump(doc, open(path, 'w'), indent=1)
        return path, doc['reproduced']

    # -- the whole ----------------------------------------------------------------------------
    def main(self):
        shutil.rmtree(self.work, ignore_errors=True)
        shutil.rmtree(self.replays, ignore_errors=True)
        os.makedirs(self.work)
        todo = harnesses(self.prop, self.tier)
        total = sum(len(v) for v in todo.values())
        if not total and self.prop not in VERUS_ONLY:
            log('error: no contracts found for ' + self.prop)
            return 2
        say('%s (%s): %d harnesses on %s' % (self.prop, self.tier, total, ', '.join(todo) or 'no configuration: Verus alone'))
        ths = []
        for c, names in todo.items():
            j = max(2, min(6, round(10 * len(names) / total)))
            t = threading.Thread(target=self.kani, args=(c, names, j))
            t.start()
            ths.append(t)
        scen = scenarios(self.prop)
        for c, names in scen.items():
            t = threading.Thread(target=self.explore, args=(c, names))
            t.start()
            ths.append(t)
        for c in ('epoll', 'poll', 'epoll-pipe') if self.prop in HISTORIES else ():
            t = threading.Thread(target=self.histories, args=(c,))
            t.start()
            ths.append(t)
        for c in ('epoll', 'poll') if self.prop in CROWDS else ():
            t = threading.Thread(target=self.histories, args=(c, True))
            t.start()
            ths.append(t)
        for u in verus.UNITS:
            if self.prop in verus.props_of(u):
                t = threading.Thread(target=self.prove, args=(u,))
                t.start()
                ths.append(t)
        for t in ths:
            t.join()

        known = known_findings()
        violations, kf = [], []
        for rec in sorted(self.results, key=lambda r: (r['status'] != 'failed', r['time'])):
            if rec['status'] == 'failed':
                new = []
                for d, loc in rec['failed']:
                    t = known.get((self.prop, rec['name'], rec['cfg'], d))
                    if t:
                        kf.append(t)
                    else:
                        new.append((d, loc))
                if not new:
                    rec['status'] = 'known'
                    continue
                rec['failed'] = new
                for d, loc in new:
                    say('FAILED %s on %s: %s (%s)' % (rec['name'], rec['cfg'], d, loc))
                if len(violations) < 2 or not any(v[2] for v in violations):
                    if self.left() > 60 or not violations:
                        p, rep = self.confirm(rec)
                        violations.append((rec, p, rep))
                        say('%s: %s' % (p, 'reproduced on the compiled code' if rep else 'not reproduced'))
            elif rec['status'] == 'vacuous':
                say('VACUOUS %s on %s: %s' % (rec['name'], rec['cfg'], rec['why']))
                c = self.confirm(rec)
                if c is None:
                    rec['status'] = 'undecided'
                else:
                    violations.append((rec, c[0], c[1]))
            elif rec['status'] == 'undecided':
                say('UNDECIDED %s on %s: %s' % (rec['name'], rec['cfg'], rec['why']))
                f, ended = self.randomly(rec, 200)
                rec['bounded_runs'] = ended
                if f:
                    os.makedirs(self.replays, exist_ok=True)
                    p = os.path.join(self.replays, '%s.%s.json' % (rec['name'], rec['cfg']))
                    json.dump({'property': self.prop, 'harness': rec['name'], 'config': rec['cfg'],
                               'random_seed': f[0], 'replay_output': f[1], 'reproduced': True,
                               'how': 'python3 /verif/tools/replay.py ' + p}, open(p, 'w'), indent=1)
                    rec['status'] = 'failed'
                    rec['failed'] = [(f[1].strip().split('\n')[0][:200], 'native run')]
                    violations.append((rec, p, True))
        for rec in self.scen:
            if rec['fail']:
                say('FAILED %s on %s: %s' % (rec['name'], rec['cfg'], rec['fail']))
                p, rep = self.scenario_violation(rec)
                violations.append((rec, p, rep))
        for rec in self.hist:
            if rec['fail']:
                say('FAILED random history on %s: %s' % (rec['cfg'], rec['fail']))
                p, rep = self.history_violation(rec)
                violations.append((rec, p, rep))
        for r in self.verus:
            mine = [f for f in r['failures'] if self.prop in f[2]] if r['status'] == 'failed' else []
            if r['status'] == 'undecided':
                self.notes.append('Verus %s: undecided: %s' % (r['unit'], r['why']))
            for f in mine:
                say('FAILED Verus %s: %s' % (r['unit'], f[0]))
            if mine:
                p, rep = (None, False) if any(v[2] for v in violations) else self.verus_violation(r, mine)
                if p:
                    violations.append((r, p, rep))
        for t in sorted(set(kf)):
            log('KNOWN-FINDING: property=%s %s' % (self.prop, t))
        for x in self.notes:
            say('note: ' + x)
        self.evidence(violations, kf)
        if violations:
            rep = [v for v in violations if v[2]] or violations
            log('VIOLATION property=%s replay=%s%s' % (
                self.prop, rep[0][1], '' if rep[0][2] else ' no-failing-input-found'))
        n = sum(r['status'] == 'proved' for r in self.results)
        say('%s: %d of %d harnesses proved, %d undecided, %d failed' % (
            self.prop, n, len(self.results), sum(r['status'] == 'undecided' for r in self.results), len(violations)))
        shutil.rmtree(self.work, ignore_errors=True)
        if not violations and self.prop in VERUS_ONLY and not all(r['status'] == 'proved' for r in self.verus):
            log('UNDECIDED: ' + '; '.join(r['why'] for r in self.verus if r['why']))
            return 2
        return 1 if violations else 0

    def evidence(self, violations, kf):
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        R = self.results
        full = [r for r in R if 'u' in letters(r['name'])]
        bnd = [r for r in R if r not in full]
        level = LEVEL.get(self.prop, 'other')
        cov = {
            # only the contracts whose domain is unbounded count as proved
            'obligations': sum(r['checks'] for r in full) + sum(r['clauses'] for r in self.verus),
            'discharged': sum(r['discharged'] for r in full if r['status'] in ('proved', 'known'))
            + sum(r['clauses'] - len(r['failures']) for r in self.verus if r['status'] != 'undecided'),
            'bounded_obligations': sum(r['checks'] for r in bnd),
            'bounded_discharged': sum(r['discharged'] for r in bnd if r['status'] in ('proved', 'known')),
            'explanation': EXPLANATION,
            'checker_cmd': '; '.join(sorted(self.checker_cmds)),
            'trusted_base': [t for t in TRUSTED if self.prop not in VERUS_ONLY or t.startswith(('Verus', 'verus/', 'tools/verus'))],
            'verus': [{'unit': r['unit'], 'status': r['status'], 'why': r['why'], 'functions_under_contract': r['functions'],
                       'verified_items': r['verified'], 'failed': [f[0] for f in r['failures']],
                       'end_of_body_reachable': r.get('reachable'), 's': round(r['time'], 1), 'smt_ms': r.get('smt_ms'),
                       'text_sha256': r.get('sha')} for r in sorted(self.verus, key=lambda r: r['unit'])],
            'back_end': 'Verus 0.2026.09.13 / Z3 (unbounded contracts)' if self.prop in VERUS_ONLY else 'Kani 0.68 / CBMC 6.11, CaDiCaL (harnesses); Verus 0.2026.09.13 / Z3 (unbounded contracts)',
            'harnesses': len(R),
            'harnesses_proved': sum(r['status'] == 'proved' for r in R),
            'harnesses_proved_unbounded_domain': sum(r['status'] == 'proved' for r in full),
            'harnesses_proved_bounded_shape': sum(r['status'] == 'proved' for r in bnd),
            'reachability_goals': sum(r['covers'] for r in R),
            'reachability_goals_met': sum(r['covered'] for r in R),
            'unmet_goals': sorted({'%s/%s: %s' % (r['cfg'], r['name'], u) for r in R for u in r['uncovered']}),
            'solver_s': round(sum(r.get('solver_s', 0) for r in R), 1),
            'verifier_s': round(sum(r['time'] for r in R), 1),
            'undecided': [{'harness': r['name'], 'config': r['cfg'], 'why': r['why'],
                           'bounded_native_runs': r.get('bounded_runs', 0)} for r in R if r['status'] == 'undecided'],
            'per_harness': [{'harness': r['name'], 'config': r['cfg'], 'status': r['status'],
                             'obligations': r['checks'], 'discharged': r['discharged'],
                             's': round(r['time'], 1)} for r in sorted(R, key=lambda r: (r['cfg'], r['name']))],
            'explored_scenarios': [{'scenario': r['name'], 'config': r['cfg'], 'schedules': r['runs'],
                                    'all_up_to_preemptions': r['bound'], 'random_schedules': r['random'],
                                    'failed': r['fail']} for r in sorted(self.scen, key=lambda r: (r['cfg'], r['name']))],
            'random_histories': [{'config': r['cfg'], 'sources': 1100 if r['crowd'] else 20, 'histories': r['runs'], 'operations': r['operations'],
                                  'failed': r['fail']} for r in sorted(self.hist, key=lambda r: (r['cfg'], r['crowd']))],
            'functions_under_contract': functions(self.prop),
            'known_findings': sorted(set(kf)),
            'notes': self.notes,
        }
        json.dump({'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level,
                   'coverage': cov, 'assumptions': FOREIGN if self.prop in VERUS_ONLY else ASSUMPTIONS, 'wall_s': round(time.time() - T0, 1),
                   'violations': len(violations)},
                  open(os.path.join(HERE, 'evidence', self.prop + '.json'), 'w'), indent=1)


# provers running at a time
VERUS = threading.Semaphore(4)
# properties of code that does not build here: nothing but its text can be had
VERUS_ONLY = ['C19', 'C20']
# the properties the random histories say something about
# ... and those with up to 1100 sources
CROWDS = ['C01', 'C03', 'C10', 'C12', 'C13']
HISTORIES = ['C%02d' % i for i in range(1, 14)] + ['C16', 'C17']
# 'proof' where the property has contracts proved over an unbounded domain (harness letter u)
LEVEL = {'C15': 'proof', 'C19': 'proof', 'C20': 'proof'}
TECHNIQUE = ('deductive verification of contracts on the real code: Verus/Z3 on function bodies cut from /repo on every run (unbounded), '
             'Kani/CBMC on the whole extracted crate against assumed system-call contracts')
TECHNIQUE_FOREIGN = 'deductive verification of contracts on the real code: Verus/Z3 on the bodies of every function of the backend, cut from /repo on every run (unbounded)'
NOTE_DEFAULT = ('Two layers. Verus discharges function contracts and invariants without any bound for the functions listed in the '
                'evidence (verus), under assumed contracts of the system calls and std types (verus/*.tmpl.rs). Kani discharges contracts of the '
                'whole public API for all data, faults and interference within a bounded number of sources (3), operations and waits per harness '
                '(model/); these are reported as bounded and never counted as proved.')
NOTE = {'C15': 'Loop-free contracts over the full domain of event values (Kani), and the same functions under contract in Verus: a complete proof for '
               'epoll and poll; delivered events bounded to one source.',
        'C19': 'Every function of src/kqueue.rs and src/os/kqueue.rs with an observable effect under contract in Verus, with either notifier (user event, socket '
               'pair), for all inputs, receipts and errors, against assumed contracts of kevent(2): the backend cannot be built or run here, so nothing is replayed. '
               'Operations are taken one at a time (no interference), and what the kernel itself does with a request is not decided; nor is what '
               'remains in the table of sources when the kernel refuses an add.',
        'C20': 'Every function of src/port.rs under contract in Verus, for all inputs and histories, against assumed contracts of port_create(3C) and its '
               'family: the backend cannot be built or run here, so nothing is replayed. Not decided: what illumos itself does with an association.'}
EXPLANATION = ('obligations/discharged count what has no bound: the tagged clauses of the Verus units (contracts, loop invariants and '
               'rely-guarantee steps on bodies cut from /repo on every run) and the obligations of the Kani harnesses over an unbounded domain (letter u). '
               'bounded_obligations/bounded_discharged count the Kani harnesses over a bounded number of sources, operations and waits: each is a contract of '
               'the public API, preconditions as assumptions over symbolic inputs and a symbolic system, postconditions as assertions. '
               'explored_scenarios and random_histories are bounded native stand-ins and count for nothing there.')
TRUSTED = [
    'Kani 0.68 (MIR to GOTO translation), CBMC 6.11, CaDiCaL',
    'model/ghost, model/rustix: assumed contracts of the Linux system calls (epoll, poll, timerfd, eventfd, pipe, read, write, fcntl)',
    'model/mstd: assumed contracts of std types (Mutex, Condvar, atomics, Duration, Instant, HashMap, Vec, io::Error)',
    'model/tracing: tracing macros have no effect',
    'Verus 0.2026.09.13 and Z3; vstd',
    'verus/*.tmpl.rs, external_body functions: assumed contracts of the system calls, locks, atomics, clock and collections',
    'tools/verus.py: the cutting of bodies and the desugaring of ?, while, |=, or_else, map/and_then keep the meaning; tracing and cfg(redox, haiku, vita) are dropped',
    'tools/extract.py: the path rewriting std:: -> mstd:: keeps the meaning of the code',
]
FOREIGN = [
    'the backend does not build here: its text is verified as it stands, against contracts written from the manual pages and from the source of rustix '
    '(verus/port.tmpl.rs, verus/kqueue.tmpl.rs); no real system has confirmed them, and no failing input can be replayed',
    'sequential contracts: no other thread interferes inside an operation; the lock of the table of sources is never poisoned',
    'kqueue: a later request for a filter replaces the flags of an earlier one (the manual: "will modify the parameters of the original event"); '
    'ENOENT answers only a deletion of what is not there, EPIPE only an addition of a write filter',
    'casts written `as _` (key to user data, event bits to a mask) lose nothing',
]
ASSUMPTIONS = [
    'system calls behave as the contracts in model/ state',
    'sequentially consistent memory; interference only at the scheduling points of the model (atomics, locks, system calls)',
    'Verus units: interest-list operations of other threads are single atomic epoll_ctl calls; a failed wait of the back end consumes no wake-up (lib-notify)',
    'Kani harnesses: at most 3 user sources, 3 table entries, 4 vector elements per run (larger counts are outside the explored domain)',
    'memory-safety checks of the verifier are off (not part of the properties)',
]


def functions(prop):
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(l)
        if p['id'] == prop:
            a = p['anchors']
            return a.get('observe_at', []) + ['%s (%s)' % (m['name'], m['where']) for m in a.get('mechanism', [])]
    return []


if __name__ == '__main__':
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    sys.exit(Run(prop, tier).main())
