"""Units over the C runtime: compile /repo's C sources to LLVM bitcode together with a harness, run llsym, replay natively."""
import os, re, json, glob, shutil, subprocess, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
RT = 'base/runtime'
DEFS = '-DARCH_AMD64 -DSIZE_64 -DOPSYS_UNIX -DOPSYS_LINUX -D_GNU_SOURCE -DGNU_ASSEMBLER -DDLOPEN -DINDIRECT_CFUNC'.split()
WARN = ['-w', '-Wno-error']
glock = threading.Lock()

def gen_headers(D, out):
    """the headers the runtime's makefile generates, made in scratch from /repo's generators"""
    with glock:
        if os.path.exists(out + '/done'): return
        os.makedirs(out, exist_ok=True)
        rt = os.path.join(D.REPO, RT); c = rt + '/config'; inc = ['-I' + c, '-I' + out, '-I' + rt + '/include']
        def sh(cmd, **kw):
            rc, o = D.run(cmd, 120, cwd=out, env=D.clean_env(**kw))
            if rc != 0: raise RuntimeError('header generation failed: %s: %s' % (' '.join(cmd), o[-600:]))
        cc = ['gcc', '-std=gnu99', '-w', '-O1', '-m64'] + DEFS + inc
        sh(cc + ['-c', c + '/gen-common.c']); sh(cc + ['-c', c + '/unix-signals.c'])
        for g, x in (('gen-sizes', []), ('gen-unix-signals', ['unix-signals.o']), ('gen-unix-sigtbl', ['unix-signals.o']), ('gen-offsets', [])):
            sh(cc + ['-o', g, c + '/' + g + '.c'] + x + ['gen-common.o']); sh(['./' + g])
        for p, f in (('_PC_', 'ml_pathconf.h'), ('_SC_', 'ml_sysconf.h')):
            sh(['sh', c + '/gen-posix-names.sh', p, f], VERSION='v-amd64-linux', CPP='gcc -x assembler-with-cpp -E -P')
        open(out + '/done', 'w').write('ok')

class CUnit:
    def __init__(self, path, D):
        self.D = D; self.path = path; self.name = os.path.splitext(path)[0].replace('/', '-')
        self.full = os.path.join(D.HARN, path); src = open(self.full).read()
        for inc in re.findall(r'//@use\s+(\S+)', src): src += '\n' + open(os.path.join(D.HARN, os.path.dirname(path), inc)).read()
        self.srcs = []
        for l in re.findall(r'^//@src\s+(.*)$', src, re.M): self.srcs += l.split()
        self.flags = sum([l.split() for l in re.findall(r'^//@flags\s+(.*)$', src, re.M)], [])
        self.traced = sum([l.split() for l in re.findall(r'^//@traced\s+(.*)$', src, re.M)], [])   # every memory access of these files is announced to the harness
        self.bounds = [re.sub(r'\s+', ' ', x.replace('//', ' ')).strip() for x in re.findall(r'^//@bounds\s+((?:.*\\\n)*.*)$', src, re.M)]
        self.bounds = [b.replace('\\', ' ') for b in self.bounds]
        self.entries = []
        for m in re.finditer(r'^//@entry\s+(\S+)\s*(.*)$', src, re.M):
            kv = dict(x.split('=', 1) for x in m.group(2).split())
            self.entries.append({'name': m.group(1), 'q': float(kv.get('q', 60)), 't': float(kv.get('t', 900)), 'shards': int(kv.get('shards', 1)), 'tshards': int(kv.get('tshards', kv.get('shards', 1))),
                'depth': int(kv.get('depth', 6)), 'covers': [c for c in kv.get('covers', '').split(',') if c], 'steps': kv.get('steps'), 'tier': kv.get('tier', 'both'), 'qtimeout': kv.get('qtimeout'), 'args': None})
    def sources(self):
        out = []
        for s in self.srcs:
            if s.endswith('/makefile'):       # the objects that directory's makefile builds
                mk = open(os.path.join(self.D.REPO, RT, s)).read().replace('\\\n', ' ')
                names = sum([re.findall(r'([\w.+-]+)\.o\b', l) for l in re.findall(r'^\w+\s*=(.*)$', mk, re.M)], [])
                fs = [os.path.join(self.D.REPO, RT, os.path.dirname(s), n + '.c') for n in names]
                out += [f for f in fs if os.path.exists(f) and f not in out]; continue
            fs = sorted(glob.glob(os.path.join(self.D.REPO, RT, s)))
            if not fs and not s.startswith('?'): raise RuntimeError('source %s not found' % s)
            out += [f for f in fs if f not in out]
        return out
    def istraced(self, f): return os.path.relpath(f, os.path.join(self.D.REPO, RT)) in self.traced
    def incs(self, objs, f):
        rt = os.path.join(self.D.REPO, RT)
        return ['-I' + os.path.join(self.D.HARN, 'c'), '-I' + objs, '-I' + rt + '/include', '-I' + rt + '/gc', '-I' + rt + '/kernel', '-I' + rt + '/mach-dep', '-I' + rt + '/c-libs'] + ['-I' + os.path.join(rt, os.path.dirname(s)) for s in self.srcs[:1]]
    def compile(self, scratch, cmds):
        def one(c):
            rc, o = self.D.run(c, 200, env=self.D.clean_env())
            return None if rc == 0 else 'cannot compile %s: %s' % (c[-1], '\n'.join([l for l in o.splitlines() if 'error' in l][:5]) or o[-500:])
        with ThreadPoolExecutor(self.D.NCPU) as p: errs = [e for e in p.map(one, cmds) if e]
        if errs: raise RuntimeError('; '.join(errs)[:1500])
    def prepare(self, scratch):
        objs = os.path.join(scratch, 'objs'); gen_headers(self.D, objs)
        d = os.path.join(scratch, self.name); os.makedirs(d); self.dir = d
        cmds = []; bcs = []; tr = []
        base = ['clang', '-std=gnu99', '-m64', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-strict-aliasing', '-g', '-ftrivial-auto-var-init=pattern', '-U_FORTIFY_SOURCE', '-emit-llvm', '-c'] + WARN + DEFS + self.flags
        for i, f in enumerate(self.sources() + [self.full, os.path.join(self.D.HARN, 'c', 'libc-model.c')]):
            o = '%s/%d.bc' % (d, i); bcs.append(o)
            x = ['-ffreestanding'] if f.endswith('libc-model.c') else []
            cmds.append(base + self.incs(objs, f) + x + ['-o', o, f])
            if self.istraced(f): tr.append(o)
        self.compile(scratch, cmds)
        for o in tr:
            rc, out = self.D.run([shutil.which('opt') or '/usr/lib/llvm-18/bin/opt', '-passes=sancov-module', '-sanitizer-coverage-level=1', '-sanitizer-coverage-trace-loads', '-sanitizer-coverage-trace-stores', '-o', o, o], 60, env=self.D.clean_env())
            if rc != 0: raise RuntimeError('tracing failed: ' + out[-400:])
        for c in (['llvm-link', '-o', d + '/all.bc'] + bcs, ['opt', '-passes=sroa,early-cse,simplifycfg', '-o', d + '/unit.bc', d + '/all.bc']):
            tool = c[0] if shutil.which(c[0]) else '/usr/lib/llvm-18/bin/' + c[0]
            rc, o = self.D.run([tool] + c[1:], 200, env=self.D.clean_env())
            if rc != 0: raise RuntimeError('%s failed: %s' % (c[0], o[-600:]))
        self.out = d + '/unit.bc'
    def engine(self, e, tier, shard, nshard, limit):
        out = os.path.join(self.dir, '%s.%d.json' % (e['name'], shard))
        cmd = [self.D.BUILD + '/engine/llsym', self.out, '--entry', e['name'], '--out', out, '--time', '%.1f' % limit, '--tier', '1' if tier == 'thorough' else '0', '--max-viol', '4']
        if nshard > 1: cmd += ['--shard', '%d/%d' % (shard, nshard), '--shard-depth', str(e['depth'])]
        if e['steps']: cmd += ['--steps', e['steps']]
        if e['qtimeout']: cmd += ['--qtimeout', e['qtimeout']]
        rc, o = self.D.run(cmd, limit + 60, env=self.D.clean_env())
        if not os.path.exists(out): return {'entry': e['name'], 'status': 'error', 'error': 'engine ended with %s: %s' % (rc, o[-400:]), 'violations': [], 'covers': {}, 'functions': {}}
        try: return json.load(open(out))
        except Exception as x: return {'entry': e['name'], 'status': 'error', 'error': 'bad engine output: %s' % x, 'violations': [], 'covers': {}, 'functions': {}}
    def native(self, scratch):
        objs = os.path.join(scratch, 'objs'); gen_headers(self.D, objs)
        d = os.path.join(scratch, self.name + '-native'); os.makedirs(d)
        base = ['clang', '-std=gnu99', '-m64', '-O1', '-fno-strict-aliasing', '-fno-builtin', '-fwrapv', '-g', '-fsanitize=address', '-ftrivial-auto-var-init=pattern', '-U_FORTIFY_SOURCE', '-DNATIVE', '-c'] + WARN + DEFS + self.flags
        cmds = []; os_ = []; srcs = self.sources()
        ent = d + '/entries.c'
        with open(ent, 'w') as o:
            for e in self.entries: o.write('extern void entry_%s(void);\n' % e['name'])
            o.write('struct { const char *name; void (*fn)(void); } replay_entries[] = {\n' + ''.join('{"%s", entry_%s},\n' % (e['name'], e['name']) for e in self.entries) + '{0,0}};\n')
        for i, f in enumerate(srcs + [self.full, os.path.join(self.D.HARN, 'c', 'sym-native.c'), ent]):
            o = '%s/%d.o' % (d, i); os_.append(o); cmds.append(base + (['-O0', '-fsanitize-coverage=func,trace-loads,trace-stores'] if self.istraced(f) else []) + self.incs(objs, f) + ['-o', o, f])
        self.compile(scratch, cmds)
        rc, o = self.D.run(['nm', '--defined-only', os_[len(srcs)]], 60, env=self.D.clean_env())
        stubs = re.findall(r' [TtWw] H_(\S+)', o)
        with open(d + '/syms', 'w') as s:
            for x in stubs: s.write('%s H_%s\n' % (x, x))
            for x in ('strtol', 'strtoul'):
                if x in stubs: s.write('__isoc23_%s H_%s\n__isoc99_%s H_%s\n' % (x, x, x, x))
        if stubs:
            for ob in os_[:len(srcs)]:
                rc, o = self.D.run(['objcopy', '--redefine-syms=' + d + '/syms', ob], 60, env=self.D.clean_env())
                if rc != 0: raise RuntimeError('objcopy: ' + o[-300:])
        rc, o = self.D.run(['clang', '-fsanitize=address', '-o', d + '/replay'] + os_ + ['-lm', '-ldl'], 120, env=self.D.clean_env())
        if rc != 0: raise RuntimeError('native link failed: ' + o[-1500:])
        return d + '/replay'
    def replay(self, exe, entry, values, tier, workdir, timeout=60):
        vf = tempfile.mktemp(dir=workdir); open(vf, 'w').write(''.join('%s\n' % v for v in values))
        wd = tempfile.mkdtemp(dir=workdir)
        rc, out = self.D.run([exe], timeout, cwd=wd, env=self.D.clean_env(REPLAY_ENTRY=entry, REPLAY_VALUES=vf, REPLAY_TIER=tier, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:handle_segv=0', MALLOC_PERTURB_='165'))
        m = re.search(r'^REPLAY-(VIOLATION.*|HELD|ASSUME|DESYNC.*)$', out, re.M)
        if m: return m.group(1).split()[0], m.group(0)
        if 'REPLAY-START' not in out: return 'BOOTFAIL', out[-600:]
        if rc is None: return 'TIMEOUT', 'no result within %d s' % timeout
        s = re.search(r'ERROR: AddressSanitizer:? .*', out)
        return 'CRASH', 'replay ended with status %s: %s' % (rc, s.group(0)[:300] if s else out[-300:])
