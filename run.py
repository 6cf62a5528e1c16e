#!/usr/bin/env python3
"""Contract checks for libkqueue: run.py <PROPERTY-ID> | --job unit:job | --list

Every run compiles /repo's current sources with goto-cc (through the shim
vp/vp.h), instruments the contracts of units/*.c with goto-instrument --dfcc and
has CBMC discharge every obligation.  A failed obligation is replayed natively
against the same sources (see class Native)."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
JOBS = int(os.environ.get('VP_JOBS', '8'))
JOB_TIMEOUT = int(os.environ.get('VP_TIMEOUT', 300 if TIER == 'quick' else 1200))
T0 = time.time()
DEADLINE = T0 + (780 if TIER == 'quick' else 6 * 3600)

CHECK_FLAGS = ['--no-standard-checks', '--bounds-check', '--pointer-check', '--div-by-zero-check',
               '--undefined-shift-check', '--unwinding-assertions', '--slice-formula']

def sh(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('utf-8', 'replace')

class Setup(Exception): pass

# ---------------------------------------------------------------- units
class Unit:
    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)[2:-2]
        self.text = open(path).read()
        self.src, self.jobs, self.default, self.kernel, self.stub, self.vp, self.loops = [], [], [], True, [], [], []
        for m in re.finditer(r'^ \* (SRC|LOOP|JOB|DEFAULT|KERNEL|STUB|VP):? (.*)$', self.text, re.M):
            k, v = m.group(1), m.group(2).strip()
            if k == 'SRC': self.src += v.split()
            elif k == 'DEFAULT': self.default += v.split()
            elif k == 'KERNEL': self.kernel = v == 'yes'
            elif k == 'STUB': self.stub += v.split()
            elif k == 'VP': self.vp += v.split()
            elif k == 'LOOP':
                mm = re.match(r'(\w+) (\w+) (\d+) ASSIGNS (.*) INV (.*)$', v)
                if not mm: raise Setup('bad LOOP in %s' % path)
                self.loops.append((mm.group(1), mm.group(2), int(mm.group(3)), mm.group(4), mm.group(5)))
            else: self.jobs.append(Job(self, v))
        self.included = re.findall(r'^#include "\.\./src/(.*\.c)"', self.text, re.M)
        self.parse_contracts()

    def parse_contracts(self):
        """functions with a body and a contract: name -> dict"""
        self.contracts, self.line_ens = {}, {}
        lines = self.text.split('\n')
        cur = None
        for i, l in enumerate(lines):
            m = re.match(r'^(?:static )?([A-Za-z_][\w \*]*?[ \*])(\w+)\((.*)\)\s*$', l)
            if m and not l.startswith('#') and '=' not in l:
                cur = dict(name=m.group(2), ret=m.group(1).strip(), params=m.group(3), line=i, clauses=[], end=None)
                continue
            if cur is None: continue
            m = re.match(r'^(REQ|ENS|ASG|FREES)\((.*)\)\s*$', l)
            if m:
                kind, arg = m.group(1), m.group(2)
                props, label, expr = [], '', arg
                if kind == 'ENS':
                    mm = re.match(r'^([^,]*), ("(?:[^"\\]|\\.)*"), (.*)$', arg)
                    if not mm: raise Setup('bad ENS at %s:%d' % (self.path, i + 1))
                    props = [p for p in mm.group(1).split() if p != '-']
                    label, expr = mm.group(2)[1:-1], mm.group(3)
                    self.line_ens[i + 1] = (props, label)
                cur['clauses'].append((kind, props, label, expr, i + 1))
                continue
            if l.startswith('{'):
                cur['body_line'] = i
                if cur['clauses']: self.contracts[cur['name']] = cur
                cur = None
            elif l.startswith(';'):
                cur = None
            elif l.strip() and not l.startswith(' '):
                cur = None
        for j in self.jobs:
            c = self.contracts.get(j.enforce)
            ps = set(self.default) | set(j.props)
            if c:
                for k in c['clauses']: ps |= set(k[1])
            for m in re.finditer(r'CHECK\(.*"\[([^\]]*)\]', self.text):
                pass
            j.all_props = ps

class Job:
    def __init__(self, unit, spec):
        self.unit = unit
        w = spec.split()
        self.name = w[0]
        kv = dict(x.split('=', 1) for x in w[1:])
        self.main = kv.get('MAIN', 'main_' + self.name)
        self.enforce = kv.get('ENFORCE', 'vp_' + self.name)
        if self.enforce == '-': self.enforce = None
        self.replace = [x for x in kv.get('REPLACE', '').split(',') if x]
        self.props = [x for x in kv.get('PROPS', '').split(',') if x]
        self.solver = kv.get('SOLVER', 'sat')
        self.unwind = int(kv.get('UNWIND', '8'))
        self.unwindset = kv.get('UNWINDSET')
        self.objbits = kv.get('OBJBITS')
        self.defs = [x for x in kv.get('DEFS', '').split(',') if x]
        self.bounded = kv.get('BOUNDED')
        self.weight = int(kv.get('WEIGHT', '5'))
        self.tier = kv.get('TIER', 'quick')
        self.all_props = set(self.props)
    @property
    def id(self): return self.unit.name + ':' + self.name

def load_units():
    d = os.path.join(VERIF, 'units')
    return [Unit(os.path.join(d, f)) for f in sorted(os.listdir(d)) if f.startswith('u_') and f.endswith('.c')]

# ---------------------------------------------------------------- build
class Build:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vp.')
        self.cfg = os.path.join(self.dir, 'cfg')
        rc, out = sh(['cmake', '-S', REPO, '-B', self.cfg, '-DCMAKE_BUILD_TYPE=Debug', '-DENABLE_TESTING=NO'], 120)
        if rc != 0: raise Setup('cmake failed:\n' + out[-2000:])
        self.cache, self.locks, self.lock, self.n, self.defs = {}, {}, threading.Lock(), 0, None
    def close(self):
        if not os.environ.get('VP_KEEP'): shutil.rmtree(self.dir, ignore_errors=True)
    def incs(self):
        return ['-I' + self.cfg, '-I' + os.path.join(VERIF, 'vp'), '-I' + os.path.join(REPO, 'include'),
                '-I' + os.path.join(REPO, 'src/common'), '-I' + os.path.join(REPO, 'src'), '-std=gnu11']
    def cc(self, src, shim=True, defs=(), stub=()):
        key = (src, shim, tuple(defs), tuple(stub))
        with self.lock: lk = self.locks.setdefault(key, threading.Lock())
        with lk:
            if key in self.cache: return self.cache[key]
            with self.lock: self.n += 1; out = os.path.join(self.dir, 'o%d.gb' % self.n)
            cmd = ['goto-cc', '-DVP_CBMC'] + ['-D' + d for d in defs] + self.incs()
            if shim: cmd += ['-include', os.path.join(VERIF, 'vp/vp.h')]
            rc, log = sh(cmd + ['-c', src, '-o', out], 120)
            if rc != 0: raise Setup('goto-cc %s failed:\n%s' % (src, log[-3000:]))
            if stub:
                cmd = ['goto-instrument']
                for f in stub: cmd += ['--remove-function-body', f]
                rc, log = sh(cmd + [out, out + '.s'], 60)
                if rc != 0: raise Setup('goto-instrument %s failed:\n%s' % (src, log[-2000:]))
                out += '.s'
            self.cache[key] = out
            return out
    def objs(self, job, extra=()):
        u = job.unit
        o = []
        if u.kernel:
            o += [self.cc(os.path.join(VERIF, 'vp/kernel.c'), False), self.cc(os.path.join(VERIF, 'vp/env.c'))]
            if u.stub: o.append(self.cc(os.path.join(VERIF, 'vp/trees.c')))
        o += [self.cc(os.path.join(VERIF, 'vp', s)) for s in u.vp]
        o += [self.cc(os.path.join(REPO, 'src', s), True, (), self.stubs_in(s, u)) for s in list(u.src) + list(extra)]
        o.append(self.cc(u.path, True, job.defs))
        return o
    STUBS = {'knote': ('common/knote.c', 'knote_index'), 'fds': ('linux/platform.c', 'fd_st')}
    def stubs_in(self, s, u):
        """tree functions of source s whose bodies unit u replaces by the ghost tree of vp/trees.c"""
        out = []
        for k in u.stub:
            if k == 'dump':
                if s == 'linux/platform.c': out.append('epoll_event_dump')
                continue
            f, t = self.STUBS[k]
            if f == s: out += ['%s_RB_%s' % (t, x) for x in ('FIND', 'INSERT', 'REMOVE', 'NFIND', 'NEXT', 'PREV', 'MINMAX')]
        return out
    def definer(self, name):
        """the library source that defines a function (a refactoring may move one)"""
        with self.lock:
            if self.defs is None:
                self.defs = {}
                for d in ('common', 'linux'):
                    for f in sorted(os.listdir(os.path.join(REPO, 'src', d))):
                        if not f.endswith('.c'): continue
                        t = open(os.path.join(REPO, 'src', d, f), errors='replace').read()
                        for m in re.finditer(r'^(?!static)(?:[A-Za-z_][\w \*]*?[ \*\n])?(\w+)\([^;{}]*\)\s*\{', t, re.M): self.defs.setdefault(m.group(1), d + '/' + f)
        return self.defs.get(name)

# ---------------------------------------------------------------- one job
class Result:
    def __init__(self, job):
        self.job = job
        self.ok, self.fail, self.frame, self.undecided = [], [], [], []
        self.reach_bad = []
        self.nreach = 0
        self.error = None
        self.time = 0
        self.functions = []
        self.real = {}
        self.cmd = ''
        self.notes = []
        self.bounded = job.bounded

def solver_args(kind):
    if kind == 'smt': return ['--bitwuzla']
    if kind == 'minisat': return ['--sat-solver', 'minisat2']
    return ['--sat-solver', 'cadical']

def run_cbmc(gb, job, kind, unwind, extra=(), timeout=JOB_TIMEOUT):
    env = dict(os.environ)
    env['PATH'] = os.path.join(VERIF, 'vp/shim') + ':' + env['PATH']
    cmd = ['cbmc'] + solver_args(kind) + CHECK_FLAGS + ['--unwind', str(unwind)]
    if job.unwindset: cmd += ['--unwindset', job.unwindset]
    if job.objbits: cmd += ['--object-bits', job.objbits]
    cmd += list(extra) + ['--json-ui', gb]
    t = time.time()
    rc, out = sh(cmd, max(1, min(timeout, DEADLINE - t)), env)
    return rc, out, time.time() - t, cmd

def parse_json(out):
    try: return json.loads(out)
    except Exception: return None

def do_job(b, job):
    r = Result(job)
    t0 = time.time()
    try:
        _do_job(b, job, r)
    except Setup as e:
        r.error = str(e)
    r.time = time.time() - t0
    return r

def goto_functions(gb):
    rc, out = sh(['goto-instrument', '--list-goto-functions', gb], 60)
    return set(re.findall(r'^(\w+)', out, re.M)) | set(re.findall(r'/\* (\w+) \*/', out))

def loop_file(job, loops, gb, syms, tmp):
    """the loop contracts of a job, attached to the n-th for/while loop of a function of the current source"""
    rc, out = sh(['goto-instrument', '--show-loops', gb], 60)
    src = {}
    fs = {}
    for name, fn, ordinal, assigns, inv in loops:
        found = []
        for m in re.finditer(r'Loop %s\.(\d+):\s*\n\s*file (\S+) line (\d+)' % re.escape(fn), out):
            if m.group(2) not in src: src[m.group(2)] = open(m.group(2), errors='replace').read().split('\n')
            if re.search(r'\b(for|while|FOREACH|FOREACH_SAFE)\s*\(|_FOREACH', src[m.group(2)][int(m.group(3)) - 1]): found.append((int(m.group(3)), int(m.group(1))))
        found.sort()
        if ordinal >= len(found): raise Setup('%s has no loop %d to attach a contract to' % (fn, ordinal))
        smap = []
        for w in sorted(set(re.findall(r'(?<![\w.>])[A-Za-z_]\w*', assigns + ' ' + inv))):
            c = re.findall(r'^Symbol\.+: (%s::(?:\d+::)*%s)$' % (re.escape(fn), w), syms, re.M)
            if c: smap.append('%s,%s' % (w, c[0]))
        fs.setdefault(fn, []).append(dict(loop_id=str(found[ordinal][1]), assigns=assigns, invariants=inv, symbol_map=';'.join(smap)))
    p = tmp + '.loops.json'
    json.dump(dict(sources=[job.unit.path], functions=[{f: v} for f, v in fs.items()], output='OUTPUT'), open(p, 'w'))
    return p

def exhaust(b, job, r):
    """a bounded stand-in: the harness runs every case itself, against the compiled sources"""
    n = Native(b, job)
    r.inst = None
    r.extra = []
    r.cmd = 'gcc -fsanitize=address, run to the end'
    err = n.build()
    if err: raise Setup(err)
    rc, out = n.run([], SEED, 0)
    for l in re.findall(r'^OBLIGATION (.*)$', out, re.M):
        m = re.match(r'\[([A-Z0-9 ]+)\] (.*)', l)
        r.ok.append(dict(id=job.main, desc=l, label=m.group(2), props=m.group(1).split(), file=job.unit.path, line=0, func=job.main))
    r.notes += re.findall(r'^NOTE (.*)$', out, re.M)
    m = re.search(r'^FAILED CHECK: \[([A-Z0-9 ]+)\] (.*)$', out, re.M)
    if m: r.fail.append(dict(id=job.main, desc=m.group(0), label=m.group(2), props=m.group(1).split(), file=job.unit.path, line=0, func=job.main))
    elif rc == 99: r.fail.append(dict(id=job.main, desc='crash', label='no memory error', props=None, file=job.unit.path, line=0, func=job.main))
    elif rc != 0 or not r.ok: raise Setup('the exhaustive run gave no answer (rc=%s): %s' % (rc, out[-800:]))
    r.native_out = out

def _do_job(b, job, r):
    if job.solver == 'native': return exhaust(b, job, r)
    tmp = os.path.join(b.dir, re.sub(r'\W', '_', job.id))
    lk, inst = tmp + '.l.gb', tmp + '.i.gb'
    extra = []
    for attempt in range(6):
        objs = b.objs(job, extra)
        rc, out = sh(['goto-cc', '--function', job.main] + objs + ['-o', lk], 120)
        if rc != 0: raise Setup('link failed: ' + out[-2000:])
        rc, out = sh(['goto-instrument', '--drop-unused-functions', lk, lk + '0'], 120)
        if rc != 0: raise Setup('goto-instrument failed: ' + out[-2000:])
        rc, out0 = sh(['goto-instrument', '--list-undefined-functions', lk], 60)
        rc, out = sh(['goto-instrument', '--list-undefined-functions', lk + '0'], 60)
        nodef = set(re.findall(r'^(\w+)$', out0, re.M))
        out = '\n'.join(x for x in re.findall(r'^(\w+)$', out, re.M) if x in nodef)
        more = sorted({f for f in map(b.definer, re.findall(r'^(\w+)$', out, re.M)) if f} - set(job.unit.src) - set(extra) - set(job.unit.included))
        if not more: break
        r.notes.append('also linked: ' + ' '.join(more) + ' for ' + ' '.join(x for x in re.findall(r'^(\w+)$', out, re.M) if b.definer(x) in more))
        extra += more
    r.undefined = sorted(x for x in re.findall(r'^(\w+)$', out, re.M) if not x.startswith(('nondet_', '__')))
    r.extra = extra
    rc, syms = sh(['goto-instrument', '--show-symbol-table', lk], 60)
    cmd = ['goto-instrument', '--dfcc', job.main]
    if job.enforce: cmd += ['--enforce-contract', job.enforce]
    for f in job.replace:
        if re.search(r'^Symbol\.+: %s$' % re.escape(f), syms, re.M): cmd += ['--replace-call-with-contract', f]
        else: r.notes.append('no function %s to replace by its contract' % f)
    loops = [l for l in job.unit.loops if l[0] == job.name]
    if loops:
        cmd += ['--apply-loop-contracts', '--loop-contracts-file', loop_file(job, loops, lk, syms, tmp)]
    if job.enforce or job.replace or loops:
        rc, out = sh(cmd + [lk, inst], 120)
        if rc != 0: raise Setup('goto-instrument failed: ' + out[-2500:])
        r.functions = sorted(set(re.findall(r"Instrumenting '(\w+)'", out)))
    else:
        # no contract is enforced or used: the program as it is, from its start (the harness
        # asserts the clauses); instrumenting it would make every static variable arbitrary
        shutil.copy(lk + '0', inst)
        rc, out = sh(['goto-instrument', '--list-goto-functions', lk + '0'], 60)
        r.functions = sorted(set(re.findall(r"^(?:Function )?(\w+)", out, re.M)))
    r.inst = inst
    where = dict(re.findall(r'^Symbol\.+: (\w+)\nPretty[^\n]*\n(?:[^\n]*\n){0,6}?Location\.+: *(?:file )?(\S+)', syms, re.M))
    r.real = {f: os.path.relpath(where[f], REPO) for f in r.functions if where.get(f, '').startswith(REPO + '/')}
    unwind, kinds = job.unwind, [job.solver] + (['minisat'] if job.solver == 'sat' else [])
    data = None
    for attempt in range(4):
        rc, out, dt, ccmd = run_cbmc(inst, job, kinds[0], unwind)
        r.cmd = ' '.join(ccmd[:-1] + ['<unit>.gb'])
        data = parse_json(out)
        res = None
        if data is not None:
            for d in data:
                if isinstance(d, dict) and 'result' in d: res = d['result']
        if rc == 'timeout':
            r.notes.append('solver %s timed out after %ds' % (kinds[0], JOB_TIMEOUT))
            if len(kinds) > 1: kinds.pop(0); continue
            raise Setup('solver timeout')
        if res is None:
            raise Setup('cbmc gave no result (rc=%s): %s' % (rc, out[-1500:]))
        unw = [x for x in res if x['status'] == 'FAILURE' and 'unwind' in x['property']]
        if unw and unwind < 40:
            unwind = unwind * 2
            r.notes.append('unwinding raised to %d' % unwind)
            continue
        break
    classify(r, res, job)

def classify(r, res, job):
    u = job.unit
    for x in res:
        d, p, st = x['description'], x['property'], x['status']
        loc = x.get('sourceLocation', {})
        if d.startswith('REACH '):
            r.nreach += 1
            if st != 'FAILURE': r.reach_bad.append(d)
            continue
        line = int(loc.get('line', 0) or 0)
        props, label = None, d
        if os.path.basename(loc.get('file', '')) == os.path.basename(u.path) and \
           line in u.line_ens and ('postcondition' in p or 'ensures' in d):
            props, label = u.line_ens[line]
        m = re.match(r'\[([A-Z0-9 ]+)\] (.*)', d)
        if m: props, label = m.group(1).split(), m.group(2)
        o = dict(id=p, desc=d, label=label, props=props, file=loc.get('file', ''), line=line, func=loc.get('function', ''))
        if st == 'SUCCESS': r.ok.append(o)
        elif st == 'FAILURE':
            if d.startswith('MODEL:') or 'unwind' in p or 'undefined function should be unreachable' in d: r.undecided.append(o)
            elif re.search(r'\.(assigns|frees)\.\d+$', p) and 'assignable' in d or 'is freeable' in d: r.frame.append(o)
            elif '__CPROVER_contracts' in p: r.undecided.append(o)
            else: r.fail.append(o)
        else: r.undecided.append(o)
    if any(l[0] == job.name for l in u.loops):
        # a loop contract that no longer fits the loop decides nothing (the bounded companion job does)
        if r.frame or any('loop_' in o['id'] or 'loop' in o['desc'] for o in r.fail):
            r.undecided += r.fail + r.frame
            r.fail = []
    if r.fail: r.undecided = [o for o in r.undecided if o['id'] in {x['property'] for x in res if x['status'] == 'FAILURE'}]

# ---------------------------------------------------------------- native replay
class Native:
    """The same harness, ghost kernel and libkqueue sources compiled with gcc and
    ASan; the clauses of the enforced contract become run-time checks."""
    def __init__(self, b, job, extra=()):
        self.b, self.job, self.extra = b, job, extra
        self.exe = os.path.join(b.dir, 'n_' + re.sub(r'\W', '_', job.id))
    def source(self):
        u = self.job.unit
        lines = u.text.split('\n')
        c = u.contracts.get(self.job.enforce) if self.job.enforce else None
        if c:
            sig = lines[c['line']]
            args = []
            for a in split_args(c['params']):
                a = a.strip()
                if a in ('void', ''): continue
                m = re.search(r'(\w+)\s*(?:\[[^\]]*\])?$', a)
                args.append(m.group(1))
            nm = c['name']
            void = re.sub(r'\bstatic\b', '', c['ret']).strip() == 'void'
            lines[c['line']] = sig.replace(nm + '(', nm + '__body(', 1)
            # find end of the body
            e = c['body_line']
            depth = 0
            while True:
                depth += lines[e].count('{') - lines[e].count('}')
                if depth == 0: break
                e += 1
            w = [sig, '{']
            for k, props, label, expr, ln in c['clauses']:
                if k == 'REQ' and '__CPROVER' not in expr: w.append('    ASSUME(%s);' % expr)
            w.append('    %s%s__body(%s);' % ('' if void else c['ret'] + ' vp_rv = ', nm, ', '.join(args)))
            for k, props, label, expr, ln in c['clauses']:
                if k == 'ENS' and '__CPROVER' not in expr:
                    w.append('    CHECK(%s, "%s:%d %s");' % (expr, os.path.basename(u.path), ln, label))
            w += ['    return;' if void else '    return vp_rv;', '}']
            lines[e] = lines[e] + '\n' + '\n'.join(w)
        return '#line 1 "%s"\n' % u.path + '\n'.join(lines)
    def build(self):
        u, b = self.job.unit, self.b
        src = self.exe + '.c'
        open(src, 'w').write(self.source())
        base = ['gcc', '-g', '-O1', '-w', '-fsanitize=address', '-fno-omit-frame-pointer', '-ffunction-sections', '-fdata-sections'] + b.incs() + ['-DVP_NATIVE', '-DVP_MAIN=' + self.job.main] + ['-D' + d for d in self.job.defs]
        objs = []
        todo = [(os.path.join(VERIF, 'vp/native.c'), False)]
        if u.kernel:
            todo += [(os.path.join(VERIF, 'vp/kernel.c'), False), (os.path.join(VERIF, 'vp/env.c'), True)]
            if u.stub: todo.append((os.path.join(VERIF, 'vp/trees.c'), True))
        todo += [(os.path.join(VERIF, 'vp', s), True) for s in u.vp]
        todo += [(os.path.join(REPO, 'src', s), True) for s in dict.fromkeys(list(u.src) + list(self.extra)) if s not in u.included]
        todo.append((src, True))
        for i, (f, shim) in enumerate(todo):
            o = self.exe + '.%d.o' % i
            rc, out = sh(base + (['-include', os.path.join(VERIF, 'vp/vp.h')] if shim else []) + ['-I' + os.path.join(VERIF, 'units'), '-c', f, '-o', o], 120)
            if rc != 0: return 'native build of %s failed:\n%s' % (f, out[-2000:])
            objs.append(o)
        wrap = ['-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all'] + ['-Wl,--wrap=' + f for f in self.job.replace + (['epoll_event_dump'] if 'dump' in u.stub else [])]
        rc, out = sh(['gcc', '-fsanitize=address'] + wrap + objs + ['-o', self.exe], 120)
        if rc != 0: return 'native link failed:\n' + out[-2000:]
        return None
    def run(self, values, seed, trials):
        vf = self.exe + '.vals'
        with open(vf, 'w') as f:
            for t, v in values: f.write('%s %d\n' % (t, v & 0xffffffffffffffff))
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99')
        return sh([self.exe, vf, str(seed), str(trials)], 120, env)

def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '([{': d += 1
        if ch in ')]}': d -= 1
        if ch == ',' and d == 0: out.append(cur); cur = ''
        else: cur += ch
    out.append(cur)
    return out

def trace_values(inst, job, prop):
    rc, out, dt, cmd = run_cbmc(inst, job, job.solver, job.unwind, ['--trace', '--property', prop], 200)
    data = parse_json(out)
    vals = []
    if not data: return vals, ''
    for d in data:
        for x in (d.get('result', []) if isinstance(d, dict) else []):
            for s in x.get('trace', []):
                if s.get('stepType') != 'assignment': continue
                m = re.match(r'vp_nd_(\w+)$', s.get('lhs', ''))
                if not m: continue
                v = s.get('value', {})
                b = v.get('binary')
                if b is not None and re.match('^[01]+$', b): vals.append((m.group(1), int(b, 2)))
                elif 'data' in v:
                    dd = v['data']
                    if dd in ('TRUE', 'true'): vals.append((m.group(1), 1))
                    elif dd in ('FALSE', 'false'): vals.append((m.group(1), 0))
    return vals, out[-200000:]

def replay(b, r, pid, failed):
    """returns (reproduced, replay path)"""
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', 'replay', '%s-%s.txt' % (pid, re.sub(r'\W', '_', r.job.id)))
    txt = ['property %s' % pid, 'unit %s, contract of %s' % (r.job.id, r.job.enforce), '']
    for o in failed:
        txt.append('FAILED OBLIGATION %s (%s:%s, %s): %s' % (o['id'], o['file'], o['line'], o['func'], o['label']))
    rep = False
    def failed_run(rc, out):
        # a failed check, or a crash inside libkqueue (a crash in the harness or in what it does not provide proves nothing)
        if rc == 99:
            m = re.search(r'#0 \S+ in \S+ (\S+)', re.sub(r'#\d+ \S+ in (?:__interceptor_|free|memcpy|memset|calloc|malloc|__asan)\S* [^\n]*\n\s*#1', '#0', out))
            return bool(m and m.group(1).startswith(os.path.join(REPO, 'src')) and 'pc 0x000000000000' not in out)
        return rc == 1
    try:
        if r.job.solver == 'native':
            txt.append('\nexecution of the compiled sources:\n' + r.native_out[-4000:])
            rep, failed = True, []
        elif r.job.weight >= 20:        # a trace takes long: try our luck first
            n = Native(b, r.job, r.extra)
            if not n.build():
                rc, out = n.run([], SEED, 30000)
                if failed_run(rc, out):
                    txt.append('\nfailing input found by running the compiled sources: rc=%s\n%s' % (rc, out[-3000:]))
                    rep, failed = True, []
        for o in failed[:2]:
            vals, _ = trace_values(r.inst, r.job, o['id'])
            txt.append('\ncounterexample of the verifier for %s (nondeterministic choices, in order):' % o['id'])
            txt += ['  %s = %d' % (t, v) for t, v in vals]
            n = Native(b, r.job, r.extra)
            err = n.build()
            if err: txt.append(err); break
            rc, out = n.run(vals, SEED, 0)
            txt.append('\nreplay of these choices against the compiled sources: rc=%s\n%s' % (rc, out[-3000:]))
            if failed_run(rc, out): rep = True; break
            rc, out = n.run([], SEED, 200000 if TIER == 'thorough' else 60000)
            txt.append('\nsearch for a failing input against the compiled sources: rc=%s\n%s' % (rc, out[-3000:]))
            if failed_run(rc, out): rep = True; break
    except Exception as e:
        txt.append('replay machinery: %r' % e)
    txt.append('\nREPRODUCED' if rep else '\nno failing input found: the obligation above was not discharged by the verifier')
    open(path, 'w').write('\n'.join(txt) + '\n')
    return rep, path

# ---------------------------------------------------------------- main
def known_findings():
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) unit=(\S+) obligation="([^"]*)" (.*)', l)
            if m: out.append(m.groups())
    return out

TRUSTED = [
    'CBMC 6.11.0 (goto-cc, goto-instrument --dfcc, cbmc) and its SAT back end CaDiCaL; cvc5 for jobs marked smt',
    'gcc and ASan for the replay of counterexamples and for the bounded native jobs',
    'vp/kernel.c: assumed contracts of the Linux system calls, libc and pthread functions libkqueue calls (executable, over one ghost state)',
    'vp/vp.h: debug tracing compiled out, errno a ghost variable, atomics sequential, pthread_cleanup_push/pop a ghost handler stack',
    'tree.h red-black trees: replaced by a ghost map seen through one witness key (vp/trees.c); the generated tree code itself is only executed exhaustively up to a bound (unit rbtree, never counted as proved)',
    'signed overflow is not an obligation (machine arithmetic wraps); termination is not proved',
]

def main(argv):
    units = load_units()
    jobs = [j for u in units for j in u.jobs]
    if argv[:1] == ['--list']:
        for j in jobs: print(j.id, ' '.join(sorted(j.all_props)))
        return 0
    if argv[:1] == ['--job']:
        b = Build()
        bad = 0
        try:
            sel = [j for j in jobs if any(re.fullmatch(p, j.id) for p in argv[1:])]
            with ThreadPoolExecutor(JOBS) as ex:
                for r in ex.map(lambda j: do_job(b, j), sel):
                    print('%-28s %6.1fs ok=%d fail=%d frame=%d undecided=%d reach_bad=%s %s' % (r.job.id, r.time, len(r.ok), len(r.fail), len(r.frame), len(r.undecided), r.reach_bad, r.notes))
                    if r.error: print('  ERROR', r.error[-1500:]); bad = 1
                    for o in r.fail + r.frame + r.undecided: print('   ', o['id'], o['file'], o['line'], o['func'], '|', o['label'])
                    if r.fail and os.environ.get('VP_REPLAY'): print(replay(b, r, 'DBG', r.fail))
        finally:
            b.close()
        return bad
    if argv[:1] == ['--native']:
        b = Build()
        try:
            def nat(j):
                n = Native(b, j, EXTRA.get(j.id, ()))
                e = n.build()
                return j, e or n.run([], SEED, 20000)
            EXTRA = {}
            with ThreadPoolExecutor(JOBS) as ex:
                for j, x in ex.map(nat, [j for j in jobs if any(re.fullmatch(p, j.id) for p in argv[1:])]):
                    print('%-28s' % j.id, x[-700:] if isinstance(x, str) else '%s %s' % (x[0], x[1][-900:]))
        finally:
            b.close()
        return 0
    pid = argv[0]
    sel = [j for j in jobs if pid in j.all_props and (j.tier == 'quick' or TIER == 'thorough')]
    if not sel:
        print('no contract decides', pid); return 2
    sel.sort(key=lambda j: -j.weight)
    b = None
    try:
        b = Build()
        with ThreadPoolExecutor(JOBS) as ex: results = list(ex.map(lambda j: do_job(b, j), sel))
        return report(b, pid, results)
    except Setup as e:
        print('ERROR:', e)
        return 2
    finally:
        if b: b.close()

def relevant(o, pid):
    return o['props'] is None or pid in o['props']

def report(b, pid, results):
    known = known_findings()
    violations, kf, errors = [], [], []
    for r in results:
        if r.error: errors.append('%s: %s' % (r.job.id, r.error[-600:])); continue
        bad = []
        for o in r.fail:
            if not relevant(o, pid): continue
            k = [f for f in known if f[0] == pid and f[1] == r.job.id and f[2] == o['label']]
            if k: kf.append(k[0])
            else: bad.append(o)
        for d in r.reach_bad:
            bad.append(dict(id='reachability', desc=d, label='the operation returns normally from some valid state (%s)' % d, props=None, file=r.job.unit.path, line=0, func=r.job.main))
        if bad: violations.append((r, bad))
        if r.undecided:
            errors.append('%s: undecided: %s' % (r.job.id, '; '.join(o['id'] + ' ' + o['label'] for o in r.undecided[:3])))
    nviol = 0
    for f in kf: print('KNOWN-FINDING: property=%s %s' % (pid, f[3]))
    lines = []
    for r, bad in violations[:4]:
        rep, path = replay(b, r, pid, [o for o in bad if o['id'] != 'reachability'])
        for o in bad[:6]: print('failed obligation: %s %s (%s)' % (r.job.id, o['label'], o['id']))
        lines.append((rep, path))
    nviol = len(violations)
    write_evidence(pid, results, nviol, errors)
    if lines:
        lines.sort(key=lambda x: not x[0])
        rep, path = lines[0]
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if rep else ' no-failing-input-found'))
        return 1
    decided = [r for r in results if not r.error and r.ok and not r.undecided]
    for e in errors: print('UNDECIDED', e)
    if not decided:
        print('nothing could be decided for', pid)
        return 2
    print('%s holds: %d obligations discharged in %d contracts, %.0fs' % (pid, sum(len(r.ok) for r in results), len(results), time.time() - T0))
    return 0

def write_evidence(pid, results, nviol, errors):
    proved = [r for r in results if not r.bounded]
    obl = sum(len(r.ok) + len(r.fail) + len(r.undecided) + len(r.frame) for r in proved)
    dis = sum(len(r.ok) for r in proved)
    contracts, own = [], []
    for r in results:
        c = r.job.unit.contracts.get(r.job.enforce) if r.job.enforce else None
        mine = [k[2] for k in c['clauses'] if k[0] == 'ENS' and pid in k[1]] if c else []
        contracts.append(dict(unit=r.job.id, contract=r.job.enforce, replaced_by_contract=r.job.replace,
                              postconditions_for_this_property=mine, obligations=len(r.ok) + len(r.fail) + len(r.undecided) + len(r.frame),
                              discharged=len(r.ok), seconds=round(r.time, 1), back_end=r.job.solver, bounded=r.bounded,
                              reachability_checks=r.nreach, notes=r.notes, error=r.error,
                              frame_not_discharged=[o['label'] for o in r.frame]))
    real = {}
    for r in results: real.update(r.real)
    funcs = ['%s (%s)' % x for x in sorted(real.items())]
    rest = sorted({j for r in results for j in r.job.replace})
    ev = dict(property=pid, tier=TIER, seed=SEED, level='proof', wall_s=round(time.time() - T0, 1), violations=nviol,
              coverage=dict(obligations=obl, discharged=dis, checker_cmd=results[0].cmd if results else '', trusted_base=TRUSTED,
                            contracts=contracts, functions_verified=funcs, functions_replaced_by_contract=rest,
                            solver_seconds=round(sum(r.time for r in results), 1), errors=errors,
                            bounded_checks_not_counted_as_proved=sum(len(r.ok) for r in results if r.bounded),
                            bounded_units=[r.job.id + ': ' + r.bounded for r in results if r.bounded]),
              assumptions=TRUSTED + ['the listed replaced functions behave as their contracts (each is itself proved against its body in another unit, or bounded: see DESIGN.md)'])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
