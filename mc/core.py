"""Bounded exhaustive exploration of the real code, sharded over processes.

A Check enumerates cases in families; each case is a closed system (a document and a schedule, a history of
operations, a tree and a program, ...), run() executes it on the implementation and compares every observation
with an independent reference model. Enumeration is complete within the bounds of each family, and deterministic.
"""
import itertools, json, mmap, os, pickle, resource, signal, struct, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
WORKERS = int(os.environ.get('MC_WORKERS', '0')) or max(2, min(8, os.cpu_count() or 2))
STRIDE = int(os.environ.get('MC_STRIDE', '1'))   # above 1 for trials of the machinery only: leaves out cases
CASE_CPU = 20           # CPU seconds for a single case (cases take milliseconds): more is a hang
CASE_WALL = 240         # wall seconds without the worker moving on (hang within C code)
WALL_CAP = {'quick': int(os.environ.get('MC_CAP', '420')), 'thorough': 3000}


class HangError(BaseException):
    pass


class Stats:
    def __init__(self):
        self.states = set()
        self.more_states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}

    def state(self, key):
        self.states.add(hash(key))

    def distinct(self, n):
        """n states that occur in no other case"""
        self.more_states += n

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, name):
        self.outcomes[name] = self.outcomes.get(name, 0) + 1


class Family:
    def __init__(self, name, gen, bounds, run=None, chunk=None):
        self.name, self.gen, self.bounds, self.run = name, gen, bounds, run


class Check:
    id = None
    title = ''
    level = 'model_checking'
    technique = 'exhaustive bounded exploration of the implementation against a reference model'
    assumptions = ()
    case_cpu = CASE_CPU
    retry_crash = False     # True where the machinery strains the interpreter itself: a crash has to happen again to count

    def setup(self):
        pass

    def families(self, tier):
        """List of Family"""
        raise NotImplementedError

    def run(self, fam, case, st):
        """None, or a message saying how the property is violated"""
        raise NotImplementedError

    # -- execution of one case
    def attempt(self, family, case, st):
        signal.setitimer(signal.ITIMER_PROF, self.case_cpu)
        try:
            return (family.run or (lambda c, s: self.run(family.name, c, s)))(case, st)
        except HangError:
            return 'no result within %s CPU seconds' % self.case_cpu
        except RecursionError as e:
            return 'RecursionError: %s' % e
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = '; '.join('%s:%s %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-4:])
            return 'unexpected %s: %s (%s)' % (type(e).__name__, str(e)[:200], where)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)


def _on_prof(signum, frame):
    raise HangError()


MAX_VIOLATIONS = 3      # per worker


def _worker(check, families, w, deadline, shared, result_path):
    signal.signal(signal.SIGPROF, _on_prof)
    sys.stdout = open(os.devnull, 'w')
    sys.stderr = open(os.devnull, 'w')
    out = []
    bad = 0
    known = known_findings(check.id)
    for fi, fam in enumerate(families):
        if bad:     # the later families would add nothing but time
            break
        st = Stats()
        n = 0
        capped = False
        violations = []
        samples = []
        for ix, case in enumerate(fam.gen()):
            if ix % WORKERS != w or ix // WORKERS % STRIDE:
                continue
            if time.monotonic() > deadline:
                capped = True
                break
            struct.pack_into('=qqd', shared, w * 32, fi, ix, time.monotonic())
            msg = check.attempt(fam, case, st)
            n += 1
            if len(samples) < 2:
                samples.append(case)
            if msg is not None:
                violations.append((ix, case, msg))
                if (fam.name, json.dumps(case, sort_keys=True)) not in known:
                    bad += 1
                    if bad >= MAX_VIOLATIONS or msg.startswith('no result'):
                        break
        out.append(dict(n=n, states=st.states, more=st.more_states, transitions=st.transitions, traces=st.traces, outcomes=st.outcomes,
                        capped=capped or STRIDE > 1, violations=violations, samples=samples))
    tmp = result_path + '.tmp'
    with open(tmp, 'wb') as f:
        pickle.dump(out, f, protocol=pickle.HIGHEST_PROTOCOL)
    os.rename(tmp, result_path)


def known_findings(pid):
    known = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path, encoding='utf-8') as f:
            for line in f:
                if line.startswith('known: property=%s ' % pid):
                    case, _, text = line[len('known: property=%s ' % pid):].rstrip('\n').partition(' -- ')
                    fam, _, case = case.removeprefix('case=').partition(':')
                    known[(fam, json.dumps(json.loads(case), sort_keys=True))] = text
    return known


def nth_case(fam, ix):
    return next(itertools.islice(fam.gen(), ix, None))


def execute(check, tier, seed):
    t0 = time.monotonic()
    from . import impl
    families, err = [], None
    try:
        impl.setup()
        check.setup()
        families = check.families(tier)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        err = 'the code cannot be loaded or set up: %s: %s (%s)' % (
            type(e).__name__, e, '; '.join('%s:%s' % (os.path.basename(f.filename), f.lineno) for f in tb[-4:]))
    only = os.environ.get('MC_FAMILY')
    if only:
        families = [f for f in families if f.name in only.split(',')]
    found = []      # (family name, case, message)
    merged = [dict(n=0, states=set(), more=0, transitions=0, traces=0, outcomes={}, capped=False, samples=[]) for f in families]
    if err is None:
        deadline = t0 + WALL_CAP.get(tier, 420)
        shared = mmap.mmap(-1, 32 * WORKERS)
        try:
            hard = resource.getrlimit(resource.RLIMIT_AS)[1]
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, hard))
        except (ValueError, OSError):
            pass
        pids = {}
        seen = {}
        retried = set()

        def spawn(w):
            struct.pack_into('=qqd', shared, w * 32, -1, -1, time.monotonic())
            path = os.path.join(impl.scratch(), 'result%d' % w)
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    _worker(check, families, w, deadline, shared, path)
                    code = 0
                except BaseException:
                    with open(path + '.err', 'w') as f:
                        f.write(traceback.format_exc())
                finally:
                    os._exit(code)
            pids[pid] = (w, path)

        for w in range(WORKERS):
            spawn(w)
        while pids:
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                time.sleep(0.02)
                for p, (w, path) in list(pids.items()):
                    now = time.monotonic()
                    mark = struct.unpack_from('=qqd', shared, w * 32)
                    if mark != seen.get(w, (None,))[0]:
                        seen[w] = (mark, now)
                    elif mark[0] >= 0 and now - seen[w][1] > CASE_WALL and not os.path.exists(path + '.tmp'):
                        os.kill(p, signal.SIGKILL)
                continue
            w, path = pids.pop(pid)
            if os.path.exists(path):
                with open(path, 'rb') as f:
                    results = pickle.load(f)
                for fam, m, r in zip(families, merged, results):    # a worker with violations stops early
                    m['n'] += r['n']
                    m['states'] |= r['states']
                    m['more'] += r['more']
                    m['transitions'] += r['transitions']
                    m['traces'] += r['traces']
                    for k, v in r['outcomes'].items():
                        m['outcomes'][k] = m['outcomes'].get(k, 0) + v
                    m['capped'] |= r['capped']
                    m['samples'] += r['samples']
                    found += [(ix, fam.name, case, msg) for ix, case, msg in r['violations']]
            elif (check.retry_crash and os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS)
                  and w not in retried):
                retried.add(w)
                spawn(w)
            else:
                fi, ix, t = struct.unpack_from('=qqd', shared, w * 32)
                detail = ''
                if os.path.exists(path + '.err'):
                    with open(path + '.err') as f:
                        detail = f.read()
                if os.WIFSIGNALED(status):
                    what = 'the process was ended by signal %d (crash, or no result)' % os.WTERMSIG(status)
                else:
                    what = 'the process failed: ' + detail[-600:]
                if fi >= 0:
                    found.append((ix, families[fi].name, nth_case(families[fi], ix), what))
                else:
                    found.append((0, '(start)', None, what))
    else:
        found.append((0, '(setup)', None, err))
    return report(check, tier, seed, families, merged, found, t0)


def report(check, tier, seed, families, merged, found, t0):
    known = known_findings(check.id)
    order = {f.name: i for i, f in enumerate(families)}
    found.sort(key=lambda v: (order.get(v[1], -1), v[0]))
    violations, knowns = [], []
    for ix, fam, case, msg in found:
        key = (fam, json.dumps(case, sort_keys=True))
        if key in known:
            knowns.append((fam, case, known[key]))
        else:
            violations.append((fam, case, msg))
    evidence_dir = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(evidence_dir, 'replay'), exist_ok=True)
    for fam, case, text in knowns:
        print('KNOWN-FINDING: property=%s %s' % (check.id, text))
    lines = []
    for i, (fam, case, msg) in enumerate(violations[:5]):
        path = os.path.join(evidence_dir, 'replay', '%s-%d.json' % (check.id, i))
        with open(path, 'w') as f:
            json.dump(dict(property=check.id, tier=tier, family=fam, case=case, message=msg,
                           replay='/verif/check %s --replay %s' % (check.id, path)), f, indent=1)
        print('%s: family %s, case %s: %s' % (check.id, fam, json.dumps(case, ensure_ascii=True)[:600], msg[:1500]))
        lines.append('VIOLATION property=%s replay=%s' % (check.id, path))
    states = set()
    for m in merged:
        states |= m['states']
    n_states = len(states) + sum(m['more'] for m in merged)
    fams = {}
    for f, m in zip(families, merged):
        fams[f.name] = dict(bounds=f.bounds, cases=m['n'], states=len(m['states']) + m['more'], transitions=m['transitions'],
                            traces=m['traces'], outcomes=m['outcomes'], complete=not m['capped'])
    samples = []
    for f, m in zip(families, merged):
        for case in m['samples'][:1]:
            text = json.dumps(case, ensure_ascii=True)
            samples.append(dict(family=f.name, case=case if len(text) < 400 else text[:400] + '...'))
    complete = bool(families) and not any(m['capped'] for m in merged) and not violations
    wall = time.monotonic() - t0
    evidence = dict(property=check.id, tier=tier, seed=seed, level=check.level,
                    coverage=dict(states=n_states, transitions=sum(m['transitions'] for m in merged),
                                  traces_validated_against_impl=sum(m['traces'] for m in merged),
                                  samples=samples, exhaustive=complete, families=fams),
                    assumptions=list(check.assumptions), wall_s=round(wall, 2), violations=len(violations))
    tmp = os.path.join(evidence_dir, '%s.json.tmp' % check.id)
    with open(tmp, 'w') as f:
        json.dump(evidence, f, indent=1)
    os.rename(tmp, os.path.join(evidence_dir, '%s.json' % check.id))
    print('%s %s: %d cases, %d states, %d transitions, %d traces, %s, %.1f s' % (
        check.id, tier, sum(m['n'] for m in merged), n_states, sum(m['transitions'] for m in merged),
        sum(m['traces'] for m in merged), 'complete within bounds' if complete else 'not complete', wall))
    if os.environ.get('MC_VERBOSE'):
        for name, f in fams.items():
            print('   %-24s %8d cases %8d states %9d transitions %8d traces %s %s' % (
                name, f['cases'], f['states'], f['transitions'], f['traces'], '' if f['complete'] else 'CAPPED',
                dict(sorted(f['outcomes'].items())) or ''))
    if not families and not violations:
        lines.append('VIOLATION property=%s replay=-' % check.id)
    for line in lines:
        print(line)
    return 1 if lines else 0


def replay(check, path):
    from . import impl
    with open(path) as f:
        data = json.load(f)
    impl.setup()
    check.setup()
    fams = {f.name: f for f in check.families(data.get('tier', 'quick'))}
    signal.signal(signal.SIGPROF, _on_prof)
    msg = check.attempt(fams[data['family']], data['case'], Stats())
    if msg is None:
        print('%s: the case no longer fails' % check.id)
        return 0
    print(msg)
    print('VIOLATION property=%s replay=%s' % (check.id, path))
    return 1
