import sys, os, re, json, time, shutil, subprocess, tempfile, hashlib, threading, queue, fcntl, signal
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = '/repo'
SEED = '/opt/smlnj-boot/amd64'
RUN = SEED + '/bin/.run/run.amd64-linux'
BUILD = os.path.join(VERIF, 'build')
HARN = os.path.join(VERIF, 'harness')
EVID = os.path.join(VERIF, 'evidence')
NCPU = int(os.environ.get('VERIF_JOBS', '8'))
LIMIT = {'quick': 780.0, 'thorough': 5400.0}
procs = set(); plock = threading.Lock()

def log(*a): print(*a, flush=True)

def run(cmd, timeout, **kw):
    """run a command in its own process group; returns (rc or None on timeout, output)"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=kw.pop('stdin', subprocess.DEVNULL),
                         start_new_session=True, text=True, errors='replace', **kw)
    with plock: procs.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, _ = p.communicate()
        return None, out
    finally:
        with plock: procs.discard(p)

def kill_all():
    with plock: ps = list(procs)
    for p in ps:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass

# ---------------------------------------------------------------- tools
def tools_hash():
    h = hashlib.sha256()
    for d in ('engine', 'dumper'):
        b = os.path.join(VERIF, 'tools', d)
        for f in sorted(os.listdir(b)):
            h.update(f.encode()); h.update(open(os.path.join(b, f), 'rb').read())
    return h.hexdigest()

def ensure_tools():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        st = os.path.join(BUILD, 'stamp'); h = tools_hash()
        ok = os.path.exists(st) and open(st).read() == h and os.access(os.path.join(BUILD, 'engine/flsym'), os.X_OK) and os.access(os.path.join(BUILD, 'engine/llsym'), os.X_OK) \
            and os.path.exists(os.path.join(BUILD, 'dumper/dumper.amd64-linux'))
        if ok: return
        log('building the symbolic executor and the FLINT dumper')
        if os.path.exists(st): os.remove(st)
        env = clean_env()
        ps = [subprocess.Popen(['bash', os.path.join(VERIF, 'tools', d, 'build.sh'), os.path.join(BUILD, d)], env=env) for d in ('engine', 'dumper')]
        rcs = [p.wait() for p in ps]
        if any(rcs): raise SystemExit('tool build failed')
        open(st, 'w').write(h)

def clean_env(**kw):
    e = dict(PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', HOME='/root', LANG='C.UTF-8', CM_VERBOSE='false')
    e.update(kw); return e

# ---------------------------------------------------------------- SML units
ANCHORS = {  # anchors used by the library description files that the boot path configuration lacks
    'basis.cm': 'base/system/smlnj/basis', 'smlnj-lib.cm': 'base/system/smlnj/smlnj-lib',
    'controls-lib.cm': 'base/system/smlnj/smlnj-lib', 'pp-lib.cm': 'base/system/smlnj/smlnj-lib',
    'ml-yacc-lib.cm': 'base/system/smlnj/ml-yacc', 'VREPO': '.', 'cml': 'cml/src', 'inet-lib.cm': 'smlnj-lib/INet',
    'unix-lib.cm': 'smlnj-lib/Unix', 'regexp-lib.cm': 'smlnj-lib/RegExp', 'html-lib.cm': 'smlnj-lib/HTML', 'xml-lib.cm': 'smlnj-lib/XML',
    'json-lib.cm': 'smlnj-lib/JSON', 'hash-cons-lib.cm': 'smlnj-lib/HashCons', 'reactive-lib.cm': 'smlnj-lib/Reactive', 'uuid-lib.cm': 'smlnj-lib/UUID',
    'sexp-lib.cm': 'smlnj-lib/SExp', 'pp-extras-lib.cm': 'smlnj-lib/PP', 'html4-lib.cm': 'smlnj-lib/HTML4', 'ckit-lib.cm': 'ckit/src',
    'ml-lpt-lib.cm': 'ml-lpt/lib', 'cml-lib': 'cml/cml-lib/cm-descr',
}
def pathconfig(root):
    base = REPO + '/base/system'; out = []
    for l in open(base + '/pathconfig'):
        w = l.split()
        if len(w) == 2 and w[0] != 'root.cm': out.append((w[0], os.path.normpath(os.path.join(base, w[1]))))
    seen = {a for a, _ in out}
    out += [(a, os.path.normpath(os.path.join(REPO, p))) for a, p in ANCHORS.items() if a not in seen]
    return '!standard\n' + ''.join('%s %s\n' % x for x in out) + 'root.cm %s\n' % root

class Unit:
    def __init__(self, path):
        self.path = path; self.name = os.path.splitext(path)[0].replace('/', '-')
        src = open(os.path.join(HARN, path)).read(); self.src = src
        self.libs = re.findall(r'\(\*@lib\s+(\S+)\s*\*\)', src) or ['$smlnj/basis/basis.cm']
        self.extra = re.findall(r'\(\*@file\s+(\S+)\s*\*\)', src)
        self.gen = re.findall(r'\(\*@gen\s+(.*?)\s*\*\)', src)
        self.bounds = [re.sub(r'\s+', ' ', x) for x in re.findall(r'\(\*@bounds\s+(.*?)\s*\*\)', src, re.S)]
        self.entries = []
        for m in re.finditer(r'\(\*@entry\s+(\S+)\s*(.*?)\*\)', src, re.S):
            kv = dict(x.split('=', 1) for x in m.group(2).split())
            self.entries.append({'name': m.group(1), 'q': float(kv.get('q', 100)), 't': float(kv.get('t', 1200)),
                'shards': int(kv.get('shards', 1)), 'tshards': int(kv.get('tshards', kv.get('shards', 1))), 'depth': int(kv.get('depth', 8)),
                'covers': [c for c in kv.get('covers', '').split(',') if c], 'steps': kv.get('steps'), 'tier': kv.get('tier', 'both'),
                'qtimeout': kv.get('qtimeout'), 'args': kv.get('args')})
    def layout(self, d, impl):
        os.makedirs(d, exist_ok=True)
        for f in ('sym.sig', 'sym-common.sml'): shutil.copy(os.path.join(HARN, 'sym', f), d)
        shutil.copy(os.path.join(HARN, 'sym', 'sym-%s.sml' % impl), os.path.join(d, 'sym-impl.sml'))
        shutil.copy(os.path.join(HARN, self.path), os.path.join(d, 'h.sml'))
        files = []
        for f in self.extra:
            if f.startswith('$'): files.append(f); continue
            shutil.copy(os.path.join(HARN, os.path.dirname(self.path), f), d); files.append(os.path.basename(f))
        for g in self.gen:  # generator script: prints the names of the files it made in d
            rc, out = run(['bash', '-c', g], 120, cwd=d, env=clean_env(HARN=HARN, UNITDIR=os.path.join(HARN, os.path.dirname(self.path)), REPO=REPO, SEED=SEED, VERIF=VERIF))
            if rc != 0: raise RuntimeError('generator failed: %s\n%s' % (g, out[-2000:]))
            files += [l[5:].strip() for l in out.splitlines() if l.startswith('FILE ')]
        with open(os.path.join(d, 'root.cm'), 'w') as o:
            o.write('Library\n  structure H\nis\n' + ''.join('  %s\n' % x for x in self.libs + ['sym.sig', 'sym-common.sml', 'sym-impl.sml'] + files + ['h.sml']))
    def dump(self, scratch):
        """compile the unit and everything it reaches from /repo's sources down to FLINT"""
        d = os.path.join(scratch, self.name); h = d + '/h'; o = d + '/out'; f = d + '/scratch'
        for x in (h, o, f): os.makedirs(x)
        self.layout(h, 'engine')
        open(d + '/pathconfig', 'w').write(pathconfig(h))
        t = time.time()
        rc, out = run([RUN, '@SMLload=' + BUILD + '/dumper/dumper.amd64-linux', o, h + '/root.cm', d + '/pathconfig'], 400,
                      env=clean_env(DUMP_SCRATCH=f), cwd=h)
        self.dump_s = time.time() - t; self.out = o
        if rc != 0 or not os.path.exists(o + '/INDEX'):
            msg = [l for l in out.splitlines() if 'Error' in l or 'FAILED' in l or 'rror:' in l][:8]
            raise RuntimeError('cannot compile %s: %s' % (self.path, ' | '.join(msg) or out[-1500:]))
        shutil.rmtree(f, ignore_errors=True)
    def native(self, scratch):
        """compile the unit natively (stock code generator) from /repo's sources; returns boot dir"""
        d = os.path.join(scratch, self.name + '-native'); r = d + '/root'
        os.makedirs(r)
        self.layout(r, 'native')
        open(d + '/pathconfig', 'w').write(pathconfig(r))
        p = os.path.join(d, 'in'); open(p, 'w').write('CMB.make();\n')
        rc, out = run([SEED + '/bin/sml', '-DNO_PLUGINS', '$smlnj/cmb.cm'], 500, env=clean_env(), cwd=d, stdin=open(p))
        b = d + '/sml.boot.amd64-unix'
        if not os.path.exists(b + '/BOOTLIST'): raise RuntimeError('native build of the replay failed: ' + out[-1500:])
        return b

def engine_job(unit, e, tier, shard, nshard, limit):
    if not isinstance(unit, Unit): return unit.engine(e, tier, shard, nshard, limit)
    out = os.path.join(os.path.dirname(unit.out), '%s.%d.json' % (e['name'], shard))
    cmd = [BUILD + '/engine/flsym', unit.out, '--entry', e['name'], '--out', out, '--time', '%.1f' % limit, '--tier', '1' if tier == 'thorough' else '0', '--max-viol', '4']
    if nshard > 1: cmd += ['--shard', '%d/%d' % (shard, nshard), '--shard-depth', str(e['depth'])]
    if e['steps']: cmd += ['--steps', e['steps']]
    if e['qtimeout']: cmd += ['--qtimeout', e['qtimeout']]
    if e['args']: cmd += e['args'].split(',')
    rc, o = run(cmd, limit + 60, env=clean_env())
    if not os.path.exists(out):
        return {'entry': e['name'], 'status': 'error', 'error': 'engine ended with %s: %s' % (rc, o[-400:]), 'violations': [], 'covers': {}, 'functions': {}}
    try: return json.load(open(out))
    except Exception as x:
        return {'entry': e['name'], 'status': 'error', 'error': 'bad engine output: %s' % x, 'violations': [], 'covers': {}, 'functions': {}}

def replay_on(u, exe, *a): return replay(exe, *a) if isinstance(u, Unit) else u.replay(exe, *a)

def replay(boot, entry, values, tier, workdir, timeout=60):
    vf = os.path.join(workdir, 'values'); open(vf, 'w').write(''.join('%s\n' % v for v in values))
    rc, out = run([RUN, '@SMLboot=BOOTLIST', '@SMLalloc=1M', '@SMLquiet'], timeout, cwd=boot,
                  env=clean_env(REPLAY_ENTRY=entry, REPLAY_VALUES=vf, REPLAY_TIER=tier))
    m = re.search(r'^REPLAY-(VIOLATION.*|HELD|ASSUME|DESYNC.*)$', out, re.M)
    started = 'REPLAY-START' in out
    if m: return m.group(1).split()[0], m.group(0)
    if started and rc is None: return 'TIMEOUT', 'no result within %d s' % timeout
    if started: return 'CRASH', 'replay ended with status %s: %s' % (rc, out[-300:])
    return 'BOOTFAIL', out[-600:]

# ---------------------------------------------------------------- main
def known_findings(pid):
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p): return []
    return [f for f in json.load(open(p)).get('known', []) if f['property'] == pid]

def main(argv):
    pid = argv[0]; tier = 'thorough' if '--tier' in argv and argv[argv.index('--tier') + 1] == 'thorough' else 'quick'
    only = argv[argv.index('--only') + 1].split(',') if '--only' in argv else None
    keep = '--keep' in argv
    t0 = time.time()
    if pid == 'setup': ensure_tools(); return 0
    props = json.load(open(os.path.join(HARN, 'props.json')))
    if pid.endswith('.c'): P = dict(cunits=[pid]); pid = 'DEV-' + os.path.basename(pid)[:-2]
    elif pid.endswith('.sml'): P = dict(units=[pid]); pid = 'DEV-' + os.path.basename(pid)[:-4]   # one harness unit, for development
    else: P = props[pid]
    ensure_tools()
    os.makedirs(EVID, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='run-%s-' % pid, dir=BUILD)
    deadline = t0 + LIMIT[tier]
    try:
        res = check(pid, P, tier, scratch, deadline, only)
    finally:
        kill_all()
        if not keep: shutil.rmtree(scratch, ignore_errors=True)
    res['evidence']['wall_s'] = round(time.time() - t0, 2)
    if not pid.startswith('DEV-') and not only: json.dump(res['evidence'], open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    for l in res['lines']: log(l)
    return res['rc']

def check(pid, P, tier, scratch, deadline, only):
    import cunit
    units = [Unit(u) for u in P.get('units', [])] + [cunit.CUnit(u, sys.modules[__name__]) for u in P.get('cunits', [])]
    lines = []; problems = []; results = []; viol = []; errors = []
    lock = threading.Lock()
    kf = known_findings(pid); kf_seen = []
    # every job: (estimated cost, callable)
    jobs = []; pool = ThreadPoolExecutor(NCPU)
    nat = {}
    def natbuild(u):
        try: nat[u.name] = u.native(scratch)
        except Exception as x: nat[u.name] = x
    def dump(u):
        try: (u.dump if isinstance(u, Unit) else u.prepare)(scratch); return None
        except Exception as x: return str(x)
    derr = list(pool.map(dump, units))
    for u, e in zip(units, derr):
        if e: errors.append(e); log('ERROR', e)
    for u, err in zip(units, derr):
        if err: continue
        for e in u.entries:
            if only and e['name'] not in only: continue
            if e['tier'] != 'both' and e['tier'] != tier: continue
            n = e['tshards'] if tier == 'thorough' else e['shards']
            lim = e['t'] if tier == 'thorough' else e['q']
            for s in range(n): jobs.append((lim, u, e, s, n))
    jobs.sort(key=lambda j: -j[0])
    natf = [pool.submit(natbuild, u) for u, err in zip(units, derr) if not err]
    def do(j):
        lim, u, e, s, n = j
        left = deadline - time.time() - 90
        if left < 5: return (j, {'entry': e['name'], 'status': 'incomplete', 'incomplete': 'no time left', 'violations': [], 'covers': {}, 'functions': {}})
        r = engine_job(u, e, tier, s, n, min(lim, left))
        log('  %-9s %-34s shard %d/%d  paths %s  queries %s  solver %.1fs  wall %.1fs %s' % (r['status'], u.name + ':' + e['name'], s + 1, n, r.get('paths', '-'), r.get('queries', '-'),
            r.get('solver_s', 0), r.get('wall_s', 0), (r.get('incomplete') or r.get('error') or '')[:160]))
        return (j, r)
    results = list(pool.map(do, jobs))
    # ------- collect
    cov = {}; funcs = {}; tot = dict(paths=0, queries=0, sat=0, unsat=0, unknown=0, forks=0, solver_s=0.0, assumed_away=0, steps=0)
    cand = []; complete = True; ent = {}
    for (lim, u, e, s, n), r in results:
        key = u.name + ':' + e['name']
        E = ent.setdefault(key, dict(status='ok', shards=n, paths=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, wall_s=0.0, covers={}, notes=[]))
        for k in tot: tot[k] += r.get(k, 0) or 0
        for k in ('paths', 'queries', 'sat', 'unsat', 'unknown', 'solver_s', 'wall_s'): E[k] = round(E[k] + (r.get(k, 0) or 0), 3)
        for c, v in r.get('covers', {}).items(): E['covers'][c] = E['covers'].get(c, 0) + v
        for f, fs in r.get('functions', {}).items():
            if f.startswith(REPO + '/'): funcs.setdefault(f[len(REPO) + 1:], set()).update(fs)
        for k in r.get('bounds', []): E.setdefault('bounds', []).append(k)
        if r['status'] == 'error': E['status'] = 'error'; E['notes'].append(r.get('error', '')); complete = False
        elif r['status'] == 'incomplete':
            if E['status'] == 'ok': E['status'] = 'incomplete'
            E['notes'].append(r.get('incomplete', '')); complete = False
        for v in r.get('violations', []): cand.append((u, e, v, r))
        if r.get('step_limit_values') is not None: cand.append((u, e, {'msg': 'does not terminate (step limit)', 'values': r['step_limit_values'], 'where': '', 'timeout': True}, r))
    vac = []
    for (lim, u, e, s, n), r in results:
        if s: continue
        miss = [c for c in e['covers'] if not ent[u.name + ':' + e['name']]['covers'].get(c)]
        if miss: vac.append('%s:%s never reached %s' % (u.name, e['name'], ','.join(miss)))
    # ------- replay of the engine's own witnesses (one per cover point) on the natively compiled code
    for f in natf: f.result()
    wit = []
    for (lim, u, e, s, n), r in results:
        if not isinstance(nat.get(u.name), (type(None), Exception)):
            for w in r.get('witnesses', [])[:3]: wit.append((u, e, w))
    wit = wit[:40]
    def dowit(x):
        u, e, w = x; d = tempfile.mkdtemp(dir=scratch)
        return (u, e, w) + replay_on(u, nat[u.name], e['name'], w['values'], tier, d, 60)
    wres = list(pool.map(dowit, wit)) if time.time() < deadline - 60 else []
    validated = sum(1 for x in wres if x[3] == 'HELD')
    for u, e, w, v, t in wres:   # the solver's input for a passing path fails when the compiled code runs it
        if v == 'VIOLATION': cand.append((u, e, {'msg': 'compiled code fails on an input that passes symbolically: ' + t[:160], 'values': w['values'], 'where': ''}, {}))
    disagree = [dict(unit=u.path, entry=e['name'], values=w['values'], native=t) for u, e, w, v, t in wres if v != 'HELD']
    for u in units:
        if isinstance(nat.get(u.name), Exception): errors.append('native build: ' + str(nat[u.name])[:500]); log('ERROR', errors[-1])
    # ------- replay candidates natively
    confirmed = []; unconfirmed = []
    boots = {}
    per_entry = {}
    cand.sort(key=lambda c: 1 if c[2].get('timeout') else 0)
    for u, e, v, r in cand:
        k = (u.name, e['name'])
        if per_entry.get(k, 0) >= 3 or len(confirmed) >= 3: continue
        per_entry[k] = per_entry.get(k, 0) + 1
        rd = os.path.join(EVID, '%s.replay' % pid)
        os.makedirs(rd, exist_ok=True)
        name = re.sub(r'[^A-Za-z0-9_.-]', '_', '%s-%s-%d' % (u.name, e['name'], per_entry[k]))
        try:
            if isinstance(nat.get(u.name), Exception): raise nat[u.name]
            verdict, text = replay_on(u, nat[u.name], e['name'], v['values'], tier, scratch, 25 if v.get('timeout') else 60)
        except Exception as x:
            verdict, text = 'ERROR', str(x)
        log('  counterexample %s:%s "%s" values=%s -> replay on the real code: %s' % (u.name, e['name'], v['msg'], str(v['values'])[:200], text[:200]))
        ok = verdict in ('VIOLATION', 'CRASH') or (verdict == 'TIMEOUT' and v.get('timeout')) or (verdict in ('HELD', 'TIMEOUT') and v['msg'].startswith('memory-safety'))
        rec = dict(property=pid, unit=u.path, entry=e['name'], message=v['msg'], where=v.get('where', ''), values=v['values'], tier=tier, replay=text,
                   how='values are the symbolic inputs in the order the harness entry draws them; python3 /verif/replay.py FILE runs them on the natively compiled code')
        if ok:
            path = os.path.join(rd, name + '.json'); json.dump(rec, open(path, 'w'), indent=1)
            hit = [f for f in kf if f.get('unit') == u.path and f.get('entry') == e['name'] and f.get('message') == v['msg']]
            if hit: kf_seen.append(hit[0])
            else: confirmed.append((path, rec))
        else: unconfirmed.append(rec)
    rc = 0
    for path, rec in confirmed:
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
        lines.append('  %s %s: %s  values=%s' % (rec['unit'], rec['entry'], rec['message'], rec['values']))
        rc = 1
    for f in kf_seen: lines.append('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    if rc == 0 and not results: rc = 2; lines.append('ERROR nothing could be explored: %s' % '; '.join(errors)[:600])
    elif rc == 0 and all(r['status'] == 'error' for _, r in results): rc = 2; lines.append('ERROR every entry failed')
    for d in disagree: lines.append('NOTE witness of a passing path does not pass natively: %s' % str(d)[:300])
    for v in vac: lines.append('NOTE vacuity: ' + v)
    for x in unconfirmed: lines.append('NOTE counterexample not confirmed on the real code, not reported: %s %s %s' % (x['entry'], x['message'], x['replay'][:100]))
    lines.append('%s %s: %s, %d entries, %d paths, %d queries (%d sat, %d unsat, %d unknown), solver %.1f s' % (pid, tier,
        'VIOLATED' if rc == 1 else 'held' + ('' if complete and not errors else ' on everything explored (exploration incomplete)') if rc == 0 else 'no answer', len(ent), tot['paths'], tot['queries'], tot['sat'], tot['unsat'], tot['unknown'], tot['solver_s']))
    allb = []
    for u in units: allb += u.bounds
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=P.get('level', 'model_checking'),
        coverage=dict(method='symbolic execution of the code compiled from /repo (FLINT IR for SML, LLVM IR for C), SMT verdict per path condition and assertion',
            states=int(tot['forks'] + tot['paths']), transitions=int(tot['steps']), traces_validated_against_impl=validated,
            samples=[dict(entry=e['name'], cover=w['cover'], inputs=w['values'][:40], native=v) for u, e, w, v, t in wres][:10],
            native_disagreements=disagree,
            complete_within_bounds=bool(complete and not errors and not vac and not unconfirmed), bounds=allb, entries=ent,
            functions_encoded={f: sorted(x)[:400] for f, x in sorted(funcs.items())}, function_count=sum(len(x) for x in funcs.values()),
            paths=tot['paths'], queries_discharged=tot['queries'], sat=tot['sat'], unsat=tot['unsat'], unknown=tot['unknown'], solver_s=round(tot['solver_s'], 2),
            reported=[r for _, r in confirmed], vacuity_problems=vac, unconfirmed_counterexamples=unconfirmed, errors=errors),
        assumptions=P.get('assumptions', []), violations=len(confirmed), wall_s=0)
    return dict(rc=rc, lines=lines, evidence=ev)
