#!/usr/bin/env python3
"""Solver-based checking of libdill: drives goto-cc/cbmc over /repo's sources.

usage: vcheck.py PROPERTY [--tier quick|thorough] [--only SUBSTR] [--keep] [-v]

Every harness in /verif/harness carries its own configuration in '//@' lines:
  //@ prop: M01 [M02 ...]       properties it decides
  //@ src: prefix chan ...      /repo sources compiled from the working tree
  //@ lib: m_handle fakeb       environment models from /verif/lib
  //@ unwind: 18                loop bound (unwinding assertions are always on)
  //@ unwindfile: handle.c=260  bound for the loops of one source file
  //@ loop: fn.0=3              hint for one loop (doubled on demand)
  //@ recur: step=12           recursion bound of a harness function
  //@ flags: --object-bits 10   extra cbmc flags
  //@ cdef: DILL_ARCH_FALLBACK  extra defines for all sources
  //@ engine: symx             path-wise symbolic execution of LLVM IR (tools/symx.py)
                               instead of cbmc; no loop bounds are needed
  //@ config: A=1 B=2           one run per config line, values become -D
  //@ thorough: A=3 B=9         additional config, thorough tier only
  //@ known: KF01               expected to fail: recorded known finding
  //@ bound: text               bound stated in the evidence
Exit 0: held. Exit 1: VIOLATION line printed. Exit 2: inconclusive/error.
"""
import sys, os, re, json, subprocess, tempfile, shutil, time, glob, hashlib
from concurrent.futures import ThreadPoolExecutor
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARN = os.path.join(VERIF, 'harness')
LIB = os.path.join(VERIF, 'lib')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
BUDGET = {'quick': 820, 'thorough': 3 * 3600}
T0 = time.time()

DEFS = ['-DDILL_SOCKETS=1', '-DDILL_ARCH_FALLBACK=1', '-DHAVE_POSIX_MEMALIGN=1',
        '-DHAVE_MPROTECT=1', '-DHAVE_CLOCK_GETTIME=1', '-DHAVE_LIBRT=1',
        '-DHAVE_EPOLL=1', '-DHAVE_EPOLL_CREATE=1']
RENAME = ['malloc', 'calloc', 'realloc', 'free', 'posix_memalign', 'abort']
RENAME_CBMC = ['memcpy', 'memmove']
ALWAYS_SRC = ['bsock', 'msock', 'iol', 'utils']
CBMC_BASE = ['--no-malloc-may-fail', '--unwinding-assertions',
             '--drop-unused-functions', '--verbosity', '8', '--signed-overflow-check',
             '--undefined-shift-check', '--div-by-zero-check',
             '--pointer-overflow-check', '--conversion-check']
CBMC_BASE.remove('--conversion-check')
CBMC_BASE.remove('--pointer-overflow-check')
MEMLIMIT_KB = 9 * 1024 * 1024


def log(*a):
    print(*a, flush=True)


class Harness:
    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)[:-2]
        self.props, self.src, self.lib = [], [], []
        self.unwind, self.unwindfile, self.flags, self.cdef = 10, {}, [], []
        self.configs, self.thorough, self.known, self.bounds = [], [], None, []
        self.timeout = None
        self.engine = 'cbmc'
        self.nosrc = []
        self.loop = {}
        self.recur = {}
        for line in open(path):
            m = re.match(r'\s*//@\s*(\w+):\s*(.*)$', line)
            if not m:
                continue
            k, v = m.group(1), m.group(2).strip()
            if k == 'prop': self.props = v.split()
            elif k == 'src': self.src += v.split()
            elif k == 'nosrc': self.nosrc += v.split()
            elif k == 'lib': self.lib += v.split()
            elif k == 'unwind': self.unwind = int(v)
            elif k == 'unwindfile':
                for kv in v.split():
                    f, b = kv.split('=')
                    self.unwindfile[f] = int(b)
            elif k == 'loop':
                for kv in v.split():
                    f, b = kv.split('=')
                    self.loop[f] = int(b)
            elif k == 'recur':
                for kv in v.split():
                    f, b = kv.split('=')
                    self.recur[f] = int(b)
            elif k == 'flags': self.flags += v.split()
            elif k == 'cdef': self.cdef += v.split()
            elif k == 'config': self.configs.append(v.split())
            elif k == 'thorough': self.thorough.append(v.split())
            elif k == 'engine': self.engine = v
            elif k == 'known': self.known = v
            elif k == 'bound': self.bounds.append(v)
            elif k == 'timeout': self.timeout = int(v)
        if not self.configs:
            self.configs = [[]]

    def runs(self, tier):
        for c in self.configs:
            yield c
        if tier == 'thorough':
            for c in self.thorough:
                yield c


def load():
    return [Harness(p) for p in sorted(glob.glob(os.path.join(HARN, '*.c')))]


def sh(cmd, timeout=None, env=None, cwd=None, memlimit=False):
    if memlimit:
        cmd = ['bash', '-c', 'ulimit -v %d; exec "$@"' % MEMLIMIT_KB, 'x'] + cmd
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         env=env, cwd=cwd, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return -1, out.decode('utf-8', 'replace')


class Run:
    """One harness in one configuration."""

    def __init__(self, h, cfg, tmp, tier, verbose):
        self.h, self.cfg, self.tier, self.verbose = h, cfg, tier, verbose
        self.id = h.name + (('[' + ','.join(cfg) + ']') if cfg else '')
        self.dir = os.path.join(tmp, re.sub(r'[^A-Za-z0-9_]', '_', self.id))
        os.makedirs(self.dir)
        self.status = 'error'
        self.detail = ''
        self.stats = {}
        self.failed = []
        self.violations = []
        self.witnesses = []
        self.validated = 0
        self.sample = None
        self.functions = []

    def srcfile(self, s):
        return os.path.join(REPO, s if s.endswith('.c') else s + '.c')

    def sources(self):
        l = [s for s in ALWAYS_SRC if s not in self.h.nosrc]
        for s in self.h.src:
            if s not in l:
                l.append(s)
        return l

    def cflags(self):
        fl = ['-I' + REPO, '-I' + os.path.join(REPO, 'dns'), '-I' + LIB, '-I' + HARN]
        undef = [d[1:] for d in self.h.cdef if d.startswith('!')]
        fl += [d for d in DEFS if d[2:].split('=')[0] not in undef]
        fl += ['-D' + d for d in self.h.cdef if not d.startswith('!')]
        return fl

    def compile(self, cc, extra, suffix, repo_extra):
        objs = []
        if cc == 'goto-cc':
            repo_extra = repo_extra + ['-D%s=vt_%s' % (r, r) for r in RENAME_CBMC]
        for s in self.sources():
            o = os.path.join(self.dir, 'r_' + s.replace('/', '_') + suffix)
            rc, out = sh([cc] + extra + repo_extra + self.cflags() +
                         ['-D%s=vt_%s' % (r, r) for r in RENAME] + ['-D' + c for c in self.cfg] +
                         ['-w', '-c', self.srcfile(s), '-o', o], 120)
            if rc != 0:
                return None, out
            objs.append(('repo', o))
        for s in ['vt'] + self.h.lib:
            o = os.path.join(self.dir, 'l_' + s + suffix)
            rc, out = sh([cc] + extra + self.cflags() + ['-D' + c for c in self.cfg] +
                         ['-w', '-c', os.path.join(LIB, s + '.c'), '-o', o], 120)
            if rc != 0:
                return None, out
            objs.append(('lib', o))
        o = os.path.join(self.dir, 'h' + suffix)
        rc, out = sh([cc] + extra + self.cflags() + ['-D' + c for c in self.cfg] +
                     ['-w', '-c', self.h.path, '-o', o], 120)
        if rc != 0:
            return None, out
        objs.append(('lib', o))
        return objs, ''

    def build_goto(self):
        objs, out = self.compile('goto-cc', ['-DVT_CBMC'], '.gb', [])
        if objs is None:
            self.detail = 'goto-cc failed: ' + out[-1500:]
            return False
        self.gb = os.path.join(self.dir, 'all.goto')
        rc, out = sh(['goto-cc'] + [o for _, o in objs] + ['-o', self.gb], 120)
        if rc != 0 or not os.path.exists(self.gb):
            self.detail = 'goto link failed: ' + out[-1500:]
            return False
        self.restrict()
        return True

    def restrict(self):
        """Calls through function pointers: cbmc's candidates are all functions of
        compatible signature. Keep those of exactly matching type if there are any;
        goto-instrument asserts that the pointer is one of them."""
        rp = os.path.join(self.dir, 'rp.goto')
        rc, out = sh(['goto-instrument', '--remove-function-pointers', self.gb, rp], 120)
        if rc != 0:
            return
        rc, out = sh(['goto-instrument', '--show-goto-functions', rp], 120)
        fn, n, cand, args = None, 0, [], []
        for l in out.splitlines():
            m = re.match(r'^(\S+) /\* (\S+) \*/$', l)
            if m:
                fn, n, cand = m.group(2), 0, []
                continue
            m = re.search(r'IF .* = (cast\()?address_of\((\w+)\)(, code\*\))? THEN GOTO', l)
            if m:
                cand.append((m.group(2), bool(m.group(1))))
                continue
            if 'no candidates for dereferenced function pointer' in l:
                n += 1
                cand = []
            m = re.search(r'dereferenced function pointer must be (?:one of )?\[?([^\]]*)\]?', l)
            if m and 'no candidates' not in l:
                n += 1
                names = [x.strip() for x in m.group(1).split(',')]
                exact = [c for c, cast in cand if not cast and c in names]
                if exact and len(exact) < len(names):
                    args += ['--restrict-function-pointer', '%s.function_pointer_call.%d/%s' %
                             (fn, n, ','.join(exact))]
                cand = []
        if args:
            out2 = os.path.join(self.dir, 'restricted.goto')
            rc, out = sh(['goto-instrument'] + args + [self.gb, out2], 120)
            if rc == 0 and os.path.exists(out2):
                self.gb = out2
            else:
                self.detail = 'restrict: ' + out[-300:]

    def build_native(self):
        """Replay binaries; several, differing in how uninitialised memory looks."""
        self.native = []
        for tag, extra in (('a', ['-ftrivial-auto-var-init=pattern']),
                           ('b', ['-ftrivial-auto-var-init=zero'])):
            objs, out = self.compile('gcc', ['-g', '-O0', '-fno-omit-frame-pointer',
                                             '-fsanitize=address,undefined',
                                             '-fno-sanitize-recover=undefined',
                                             '-fno-sanitize=nonnull-attribute'] + extra,
                                     '.%s.o' % tag, [])
            if objs is None:
                self.detail = 'native build failed: ' + out[-1500:]
                return False
            syms = set()
            for k, o in objs:
                if k == 'lib':
                    _, out = sh(['nm', '--defined-only', o])
                    for l in out.splitlines():
                        w = l.split()
                        if len(w) == 3 and w[2].startswith('h_'):
                            syms.add(w[2][2:])
            red = os.path.join(self.dir, 'redef')
            with open(red, 'w') as f:
                for s in sorted(syms):
                    f.write('%s h_%s\n' % (s, s))
            for k, o in objs:
                if k == 'repo' and syms:
                    sh(['objcopy', '--redefine-syms=' + red, o])
            exe = os.path.join(self.dir, 'native_' + tag)
            rc, out = sh(['gcc', '-fsanitize=address,undefined'] + [o for _, o in objs] +
                         ['-o', exe, '-lm', '-lpthread'], 120)
            if rc != 0:
                self.detail = 'native link failed: ' + out[-1500:]
                return False
            self.native.append(exe)
        return True

    def loops(self):
        rc, out = sh(['cbmc', self.gb, '--show-loops', '--drop-unused-functions',
                      '--no-malloc-may-fail'], 120)
        res, cur = [], None
        for l in out.splitlines():
            m = re.match(r'Loop (\S+):', l)
            if m:
                cur = m.group(1)
            m = re.match(r'\s+file (\S+) line (\d+) function (\S+)', l)
            if m and cur:
                res.append((cur, m.group(1), m.group(3)))
                cur = None
        return res

    def cbmc(self, bounds, trace, timeout, props=None):
        cmd = ['cbmc', self.gb] + CBMC_BASE + ['--unwind', str(bounds['*'])]
        us = ['%s:%d' % (l, b) for l, b in bounds.items() if l != '*']
        if us:
            cmd += ['--unwindset', ','.join(us)]
        fl = list(self.h.flags)
        while '--drop' in fl:
            i = fl.index('--drop')
            if fl[i + 1] in cmd:
                cmd.remove(fl[i + 1])
            del fl[i:i + 2]
        if '--object-bits' not in fl:
            fl += ['--object-bits', '10']
        cmd += fl
        if trace:
            cmd += ['--trace']
        for p in props or []:
            cmd += ['--property', p]
        t = time.time()
        rc, out = sh(cmd, timeout, memlimit=True)
        return rc, out, time.time() - t, cmd

    def parse(self, out):
        res = {}
        for m in re.finditer(r'^\[(\S+)\] (?:file \S+ )?line (\d+) (.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$',
                             out, re.M):
            res[m.group(1)] = (m.group(3), m.group(4), m.group(2))
        for m in re.finditer(r'^\[(\S+)\] (?!(?:file \S+ )?line \d)(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$',
                             out, re.M):
            res.setdefault(m.group(1), (m.group(2), m.group(3), '0'))
        return res

    def traces(self, out):
        """property id -> list of recorded nondeterministic values"""
        res, cur = {}, None
        for l in out.splitlines():
            m = re.match(r'Trace for (\S+):', l)
            if m:
                cur = m.group(1)
                res[cur] = []
                continue
            m = re.match(r'\s+nd_last=.*\(([01 ]+)\)\s*$', l)
            if m and cur:
                res[cur].append(int(m.group(1).replace(' ', ''), 2))
        return res

    def replay(self, values, name):
        """Returns (kind, output): kind in ok|violation|assume|hang"""
        if not hasattr(self, 'native'):
            if not self.build_native():
                return 'nobuild', self.detail
        f = os.path.join(self.dir, 'replay_%s.txt' % re.sub(r'\W', '_', name))
        with open(f, 'w') as fp:
            fp.write('\n'.join(map(str, values)) + '\n')
        last = ('ok', '')
        for exe in self.native:
            env = dict(os.environ, VT_REPLAY=f,
                       ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=0',
                       UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=1')
            rc, out = sh([exe], 20, env=env, cwd=self.dir)
            if rc == -1:
                return 'hang', out
            if rc == 4:
                last = ('assume', out)
                continue
            if 'CHECK-FAILED' in out or 'AddressSanitizer' in out or 'runtime error' in out \
               or rc < 0 or rc in (134, 139):
                return 'violation', out
            last = ('ok', out)
        return last

    def go(self):
        t0 = time.time()
        try:
            self.go_()
        except Exception as e:          # never report an internal error as success
            import traceback
            self.status, self.detail = 'error', traceback.format_exc()
        self.wall = time.time() - t0
        return self

    def timeout(self):
        left = BUDGET[self.tier] - (time.time() - T0)
        t = self.h.timeout or (600 if self.tier == 'quick' else 3600)
        return max(5, min(left, t))

    def build_ll(self):
        objs, out = self.compile('clang-18', [
            '-DVT_SYMX', '-S', '-emit-llvm', '-O1', '-fno-vectorize', '-fno-slp-vectorize',
            '-fno-inline', '-fno-builtin', '-fno-unroll-loops', '-fno-strict-aliasing',
            '-fno-stack-protector', '-fno-jump-tables', '-Xclang', '-no-opaque-pointers'][:-2] + [
            '-fsanitize=signed-integer-overflow,shift-exponent,integer-divide-by-zero',
            '-fsanitize-trap=all', '-U_FORTIFY_SOURCE'], '.ll', [])
        if objs is None:
            self.detail = 'clang failed: ' + out[-1500:]
            return False
        self.ll = os.path.join(self.dir, 'all.ll')
        rc, out = sh(['llvm-link-18', '-S'] + [o for _, o in objs] + ['-o', self.ll], 120)
        if rc != 0:
            self.detail = 'llvm-link failed: ' + out[-1500:]
            return False
        return True

    def go_symx(self):
        if not self.build_ll():
            return
        out = os.path.join(self.dir, 'symx.json')
        t = self.timeout()
        rc, o = sh(['python3-vt', os.path.join(VERIF, 'tools', 'symx.py'), self.ll, out,
                    '--timeout', str(t)], t + 60, memlimit=True)
        if not os.path.exists(out):
            self.status, self.detail = 'error', 'symx: rc %d %s' % (rc, o[-800:])
            return
        r = json.load(open(out))
        if r['error']:
            self.status, self.detail = 'error', r['error']
            return
        self.stats = dict(assertions=r['checks'] + r['memchecks'], witnesses=0,
                          vccs=r['forks'] + r['checks'], vccs_after_simplification=r['queries'],
                          steps=r['instrs'], variables=r['paths'], clauses=0, solver_s=r['solver_s'],
                          symex_s=r['wall'] - r['solver_s'], sat_calls=r['queries'], paths=r['paths'])
        self.functions = [(None, f) for f in r['functions']]
        self.nobody = []
        src = open(self.h.path).read()
        names = set(re.findall(r'WITNESS\("([^"]*)"\)', src))
        self.witnesses = sorted(r['witnesses'])
        self.dead = ['WITNESS ' + n for n in names if 'WITNESS ' + n not in r['witnesses']]
        if r['violations']:
            unrep = []
            for v in r['violations']:
                kind, o = self.replay(v['values'], 'v')
                if kind in ('violation', 'hang'):
                    self.violations.append(dict(prop=v.get('where', ''), msg=v['msg'], values=v['values'],
                                                output=o[-3000:]))
                    self.status, self.detail = 'violation', v['msg'] + ' in ' + v.get('where', '')
                    return
                unrep.append((v['msg'], v.get('where'), kind, o[-300:]))
            self.status, self.detail = 'unreproduced', repr(unrep)[:3000]
            return
        if r['incomplete']:
            self.status, self.detail = 'incomplete', repr(r['incomplete'])[:1500]
            return
        if not self.witnesses:
            self.status, self.detail = 'vacuous', 'no witness reached'
            return
        for w in self.witnesses[:2 if self.tier == 'quick' else 50]:
            kind, o = self.replay(r['witnesses'][w], w)
            if kind in ('ok', 'assume') and w in o.split('REPLAY-EXHAUSTED')[0]:
                self.validated += 1
                if not self.sample:
                    self.sample = dict(harness=self.id, witness=w, values=r['witnesses'][w][:64])
            else:
                self.status, self.detail = 'witness-mismatch', '%s: %s %s' % (w, kind, o[-600:])
                return
        self.status = 'ok'

    def go_(self):
        if self.h.engine == 'symx':
            return self.go_symx()
        if not self.build_goto():
            return
        bounds = {'*': self.h.unwind}
        for c in self.cfg:
            if c.startswith('UW='):
                bounds['*'] = int(c[3:])
        bounds.update(self.h.recur)
        loops = self.loops()
        for l, f, fn in loops:
            if l in self.h.loop:
                bounds[l] = self.h.loop[l]
            for suf, b in self.h.unwindfile.items():
                if ('/' + f).endswith('/' + suf) or fn == suf:
                    bounds[l] = b
        for attempt in range(3):
            rc, out, wall, cmd = self.cbmc(bounds, True, self.timeout())
            if self.verbose:
                with open(os.path.join(self.dir, 'cbmc.out'), 'w') as f:
                    f.write(out)
            if rc == -1:
                self.status, self.detail = 'timeout', 'cbmc timed out after %.0fs' % wall
                return
            res = self.parse(out)
            if not res:
                self.status, self.detail = 'error', 'cbmc: ' + out[-800:]
                return
            fails = {k: v for k, v in res.items() if v[1] != 'SUCCESS'}
            unw = [k for k in fails if '.unwind.' in k or 'recursion' in fails[k][0]]
            real = {k: v for k, v in fails.items()
                    if k not in unw and not v[0].startswith('WITNESS')}
            if real or not unw or attempt == 2:
                break
            for k in unw:
                l = k.replace('.unwind.', '.')
                if '.unwind.' in k:
                    bounds[l] = 2 * bounds.get(l, bounds['*']) + 1
                else:
                    bounds['*'] *= 2
        g = lambda rx: [m for m in re.findall(rx, out)]
        self.stats = dict(
            assertions=len(res),
            witnesses=sum(1 for v in res.values() if v[0].startswith('WITNESS')),
            vccs=sum(map(int, g(r'Generated (\d+) VCC'))),
            vccs_after_simplification=sum(map(int, g(r'VCC\(s\), (\d+) remaining'))),
            steps=sum(map(int, g(r'size of program expression: (\d+) steps'))),
            variables=max(map(int, g(r'(\d+) variables')), default=0),
            clauses=max(map(int, g(r', (\d+) clauses')), default=0),
            solver_s=sum(map(float, g(r'Runtime Solver: ([\d.e+-]+)s'))),
            symex_s=sum(map(float, g(r'Runtime Symex: ([\d.e+-]+)s'))),
            sat_calls=max(map(int, g(r'\((\d+) iteration')), default=1))
        self.functions = sorted(set(re.findall(r'^(/\S+) function (\S+)', out, re.M)))
        nobody = sorted(set(re.findall(r'no body for function (\S+)', out)))
        self.nobody = nobody
        tr = self.traces(out)
        # Vacuity: every witness has to be reachable.
        wit = {}
        for k, v in res.items():
            if v[0].startswith('WITNESS'):
                wit.setdefault(v[0], []).append((k, v[1]))
        for w, l in wit.items():
            if any(s == 'FAILURE' for _, s in l):
                self.witnesses.append(w)
        dead = [w for w, l in wit.items() if all(s == 'SUCCESS' for _, s in l)]
        if real:
            self.failed = [(k, v[0]) for k, v in real.items()]
            # prefer our own assertions over derived pointer checks
            order = sorted(real, key=lambda k: (0 if '.assertion.' in k else 1, k))
            unrep = []
            for k in order[:6]:
                vals = tr.get(k)
                if vals is None:
                    continue
                kind, o = self.replay(vals, k)
                if kind in ('violation', 'hang'):
                    self.violations.append(dict(prop=k, msg=real[k][0], values=vals,
                                                output=o[-3000:]))
                    break
                unrep.append((k, real[k][0], kind, o[-300:]))
            if self.violations:
                self.status = 'violation'
                self.detail = self.violations[0]['msg']
            else:
                self.status = 'unreproduced'
                self.detail = repr(unrep)[:3000]
            return
        if unw:
            for k in unw[:3]:
                kind, o = self.replay(tr.get(k, []), k)
                if kind in ('violation', 'hang'):
                    self.status = 'violation'
                    self.violations.append(dict(prop=k, msg='unbounded loop or hang: ' + fails[k][0],
                                                values=tr.get(k, []), output=o[-3000:]))
                    self.detail = self.violations[0]['msg']
                    return
            self.status = 'unwind'
            self.detail = 'loop bound exceeded: ' + ', '.join(unw[:5])
            return
        if rc not in (0, 10):
            self.status, self.detail = 'error', 'cbmc exit %d: %s' % (rc, out[-500:])
            return
        self.dead = dead
        if not self.witnesses:
            self.status, self.detail = 'vacuous', 'unreachable: %s' % dead
            return
        # Validate the encoding: the solver's witness runs in the real code as well.
        for w, l in [x for x in sorted(wit.items()) if x[0] in self.witnesses][:2 if self.tier == 'quick' else 50]:
            for k, s in l:
                if s == 'FAILURE' and k in tr:
                    kind, o = self.replay(tr[k], k)
                    if kind == 'ok' and w in o:
                        self.validated += 1
                        if not self.sample:
                            self.sample = dict(harness=self.id, witness=w, values=tr[k][:64])
                    else:
                        self.status = 'witness-mismatch'
                        self.detail = '%s: %s %s' % (w, kind, o[-600:])
                        return
                    break
        self.status = 'ok'


def save_replay(prop, r):
    """Self-contained replay: inputs plus a script that rebuilds and runs it."""
    base = os.path.join(VERIF, 'evidence', 'replay', '%s_%s' % (
        prop, hashlib.sha1(r.id.encode()).hexdigest()[:8]))
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    v = r.violations[0]
    json.dump(dict(property=prop, harness=r.h.name, config=r.cfg, check=v['prop'],
                   message=v['msg'], values=v['values'], native_output=v['output']),
              open(os.path.join(base, 'violation.json'), 'w'), indent=1)
    with open(os.path.join(base, 'replay.sh'), 'w') as f:
        f.write('#!/bin/sh\n# Rebuilds the harness natively and replays the counterexample.\n'
                'exec python3 %s --replay %s/violation.json\n' % (os.path.abspath(__file__), base))
    os.chmod(os.path.join(base, 'replay.sh'), 0o755)
    return os.path.join(base, 'violation.json')


def do_replay(path):
    v = json.load(open(path))
    h = Harness(os.path.join(HARN, v['harness'] + '.c'))
    tmp = tempfile.mkdtemp(prefix='vreplay.')
    try:
        r = Run(h, v['config'], tmp, 'quick', False)
        kind, out = r.replay(v['values'], 'x')
        print(out)
        print('REPLAY:', kind)
        return 1 if kind in ('violation', 'hang') else 0
    finally:
        shutil.rmtree(tmp)


EXPLAIN = {
    'cbmc': 'Bounded model checking with CBMC: the C sources of /repo are unwound into one formula '
        'per configuration and the SAT solver refutes every assertion, array bound, pointer and '
        'unwinding condition',
    'symx': 'Path-wise symbolic execution (tools/symx.py) of the LLVM IR clang makes of the C '
        'sources of /repo: Z3 decides every branch, assertion and memory access over all inputs '
        'of the path (exact integer or bit-vector arithmetic)'}


def main():
    if sys.argv[1:2] == ['--replay']:
        sys.exit(do_replay(sys.argv[2]))
    if sys.argv[1:2] == ['--selftest']:
        for t in ('cbmc', 'goto-cc', 'gcc', 'objcopy', 'nm'):
            if not shutil.which(t):
                log('missing', t)
                sys.exit(1)
        log('tools present, %d harnesses' % len(load()))
        sys.exit(0)
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in BUDGET else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    hs = [h for h in load() if a.property in h.props or a.property == 'ALL']
    if a.only:
        hs = [h for h in hs if a.only in h.name]
    if not hs:
        log('no harness for', a.property)
        sys.exit(2)
    tmp = tempfile.mkdtemp(prefix='vcheck.%s.' % a.property)
    try:
        rc = check(a, hs, tmp, tier, seed)
    finally:
        if a.keep:
            log('kept', tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return {}
    return {f['id']: f for f in json.load(open(p))['findings'] if f.get('status') == 'known'}


def check(a, hs, tmp, tier, seed):
    runs = [Run(h, c, tmp, tier, a.v or a.keep) for h in hs for c in h.runs(tier)]
    runs.sort(key=lambda r: -(r.h.timeout or 0))
    bad = 0
    inconc = 0
    kf = findings()
    replay = None
    def one(r):
        r.go()
        if a.v or r.status != 'ok':
            log('%-12s %-50s %6.1fs %s' % (r.status, r.id, r.wall,
                r.detail if r.status != 'ok' else
                'asserts=%d vccs=%d vars=%d solver=%.1fs wit=%d val=%d' % (
                    r.stats['assertions'], r.stats['vccs'], r.stats['variables'],
                    r.stats['solver_s'], len(r.witnesses), r.validated)))
        return r
    with ThreadPoolExecutor(JOBS) as ex:
        done = list(ex.map(one, runs))
    viol = []
    # Vacuity: each witness of a harness is reached in at least one configuration.
    for h in hs:
        rs = [r for r in done if r.h is h]
        if all(r.status == 'ok' for r in rs) and not h.known:
            alive = {w for r in rs for w in r.witnesses}
            dead = {w for r in rs for w in r.dead} - alive
            if dead:
                log('vacuous      %s unreachable: %s' % (h.name, sorted(dead)))
                inconc += 1
    for r in done:
        if r.h.known:
            if r.status == 'violation':
                f = kf.get(r.h.known)
                if f:
                    log('KNOWN-FINDING: property=%s %s' % (a.property, f['what']))
                    r.status = 'known'
                else:
                    viol.append(r)
            elif r.status not in ('ok', 'vacuous'):
                inconc += 1
            continue
        if r.status == 'violation':
            viol.append(r)
        elif r.status != 'ok':
            inconc += 1
    for r in viol:
        path = save_replay(a.property, r)
        log('  counterexample in %s: %s' % (r.id, r.violations[0]['msg']))
        log('VIOLATION property=%s replay=%s' % (a.property, path))
    S = lambda k: sum(r.stats.get(k, 0) for r in done)
    funcs = sorted({'%s:%s' % (os.path.relpath(f, REPO), fn) for r in done
                    for f, fn in r.functions if f and f.startswith(REPO + '/')} |
                   {fn for r in done for f, fn in r.functions if not f and 'dill' in fn})
    ev = dict(property=a.property, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            explanation='; '.join(EXPLAIN[e] for e in sorted({r.h.engine for r in done})) +
                '. States = symbolic program steps, transitions = verification conditions '
                '(cbmc) or feasibility decisions and assertions (symx), '
                'traces_validated_against_impl = solver-produced reachability '
                'witnesses replayed through the natively compiled real code.',
            states=S('steps'), transitions=S('vccs'),
            traces_validated_against_impl=sum(r.validated for r in done),
            samples=[r.sample for r in done if r.sample][:5] or ['none'],
            queries=S('sat_calls'), obligations=S('assertions') - S('witnesses'),
            obligations_after_simplification=S('vccs_after_simplification'),
            solver_s=round(S('solver_s'), 2), symex_s=round(S('symex_s'), 2),
            max_variables=max([r.stats.get('variables', 0) for r in done]),
            functions_encoded=funcs,
            bounds=sorted({b for r in done for b in r.h.bounds} |
                          {'%s: loops unwound %d times, unwinding assertions on' %
                           (r.h.name, r.h.unwind) for r in done if r.h.engine == 'cbmc'} |
                          {'%s: every feasible path, loops unbounded' % r.h.name
                           for r in done if r.h.engine == 'symx'}),
            runs=[dict(run=r.id, status=r.status, wall_s=round(r.wall, 1),
                       assertions=r.stats.get('assertions', 0),
                       witnesses=r.witnesses, no_body=getattr(r, 'nobody', []))
                  for r in done]),
        assumptions=sorted({'environment model: lib/%s.c' % l for r in done for l in r.h.lib} |
            {'malloc succeeds unless the harness makes failure symbolic (vt_malloc_may_fail)',
             'stack switching replaced by sigsetjmp/siglongjmp variant (DILL_ARCH_FALLBACK) where cr.c is encoded'}),
        wall_s=round(time.time() - T0, 1), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', a.property + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if viol:
        return 1
    if inconc:
        log('INCONCLUSIVE property=%s runs=%d' % (a.property, inconc))
        return 2
    log('OK property=%s runs=%d obligations=%d solver=%.1fs wall=%.1fs' % (
        a.property, len(done), ev['coverage']['obligations'],
        ev['coverage']['solver_s'], ev['wall_s']))
    return 0


if __name__ == '__main__':
    main()
