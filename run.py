#!/usr/bin/env python3
"""Builds the code under test and the harness from the current tree and runs the check of one property.

  run.py C05                 run the check of C05 (tier: VERIF_TIER or --tier, seed: VERIF_SEED or --seed)
  run.py C05 --replay FILE   re-run a recorded failing case
  run.py --build             build everything
"""
import argparse, concurrent.futures, fcntl, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.path.abspath(os.environ.get('ECCLAB_REPO', '/repo'))
GCC, GXX, CLANG = '/usr/bin/gcc', '/usr/bin/g++', '/usr/bin/clang'
HARN = os.path.join(VERIF, 'harness')

# Harness program of each property.
GROUPS = json.load(open(os.path.join(HARN, 'groups.json')))
COMMON_SRC = ['pbt.cpp', 'codec.cpp', 'ref.cpp']

SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
CFLAGS = {'plain': ['-O2', '-g', '-w'], 'asan': ['-O1', '-g', '-w'] + SAN}


def repo_files():
    r = []
    for d, dirs, files in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if not x.startswith('.') and x not in ('_build', 'build', 'tests', 'work', 'results'))
        for f in sorted(files):
            if f.endswith(('.c', '.h', '.cpp', '.hpp', '.inc', '.def')):
                r.append(os.path.join(d, f))
    return r


def tree_hash(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fp:
            h.update(fp.read())
        h.update(b'\0')
    return h.hexdigest()[:16]


def g(pattern, exclude=()):
    return sorted(f for f in glob.glob(os.path.join(REPO, pattern)) if os.path.basename(f) not in exclude)


def common():
    return [f for f in g('common/*.c') if not os.path.basename(f).startswith('ui_')]


def lib_specs():
    """name -> (sources, flags)."""
    ui = os.path.join(HARN, 'ui_capture.c')
    base = ['-DUSE_STDLIB_RND', '-DDEC_NEEDS_SIGMA', '-I' + REPO, '-I' + os.path.join(REPO, 'lib')]
    glp = ['-DDEC_NEEDS_CSNRN']
    rho = lambda k: ['-include', os.path.join(REPO, 'formats/format_%s.h' % k), '-DFORMAT_EPS5_H']
    dtrm = lambda mine, other: g('dtrm/*.c', exclude=(other,))
    s = {
        'dtrm0': (dtrm('dtrm0.c', 'dtrm1.c') + common() + [ui], base),
        'dtrm1': (dtrm('dtrm1.c', 'dtrm0.c') + g('rm1_ml/*.c') + common() + [ui], base),
        'dtrm_glp': (g('dtrm_glp/*.c') + common() + [ui], base + glp),
        'polar': (g('polar_scl/*.c') + common() + [ui], base),
        'util': (common() + g('rm1_ml/*.c') + [ui, os.path.join(HARN, 'util_shim.c')], base),
    }
    for k in ('eps5', 'rho1', 'rho5'):
        f = rho(k) if k != 'eps5' else []
        s['fmt_' + k] = ([os.path.join(HARN, 'fmt_shim.c'), ui], base + f)
        if k != 'eps5':
            s['dtrm0_' + k] = (s['dtrm0'][0], base + f)
            s['dtrm_glp_' + k] = (s['dtrm_glp'][0], base + glp + f)
            s['polar_' + k] = (s['polar'][0], base + f)
            s['util_' + k] = (s['util'][0], base + f)
    hard = ['-DHARD_INPUT']
    for c in ('dtrm0', 'dtrm1', 'dtrm_glp', 'polar'):
        s[c + '_hard'] = (s[c][0], s[c][1] + hard)
        for k in ('rho1', 'rho5'):
            if c != 'dtrm1':
                s[c + '_h' + k] = (s[c][0], s[c + '_' + k][1] + hard)
    s['util_hard'] = (s['util'][0], base + hard)
    for k in ('rho1', 'rho5'):
        s['util_h' + k] = (s['util'][0], s['util_' + k][1] + hard)
    for c in ('dtrm0', 'dtrm1', 'dtrm_glp', 'polar'):
        src = s[c][0] + [os.path.join(HARN, 'diag_shim.c')]
        s[c + '_dbg'] = (src, s[c][1] + ['-DDBG', '-DDBG2', '-U_FORTIFY_SOURCE', '-Dprintf=ecv_printf'])
        s[c + '_ops'] = (src, s[c][1] + ['-DCOUNT_OPS'])
    for c in ('dtrm0', 'dtrm1', 'dtrm_glp', 'polar'):
        src, fl = s[c]
        s['live_' + c] = (src + [os.path.join(HARN, 'live_shim.c')], fl + ['-Wl,--wrap=' + x for x in ('malloc', 'calloc', 'realloc', 'free', 'strdup', 'strndup', 'aligned_alloc', 'posix_memalign')])
        s[c + '_oom'] = s['live_' + c]
    sim = g('simulators/*.c', exclude=('main_txt.c',))
    wrap = ['time', 'rand', 'srand', 'clock', 'fopen', 'fopen64', 'fclose', 'remove', 'unlink', 'rename', 'open', 'open64', 'close', 'mkdir', 'rmdir', 'link']
    simf = base + ['-Wl,--wrap=' + x for x in wrap]
    stub = [os.path.join(HARN, 'stub_codec.c'), os.path.join(HARN, 'sim_hooks.c'), ui]
    s['sim'] = (sim + common() + stub, simf)
    s['sim_csnrn'] = (sim + common() + stub, simf + glp)
    s['sim_ownrnd'] = (sim + common() + stub, [x for x in simf if x != '-DUSE_STDLIB_RND'])
    for c in ('dtrm0', 'dtrm1', 'dtrm_glp', 'polar'):
        src, fl = s[c]
        s['sim_' + c] = (sim + src + [os.path.join(HARN, 'sim_hooks.c')], simf + (glp if c == 'dtrm_glp' else []))
        s['live_sim_' + c] = (sim + src + [os.path.join(HARN, 'sim_hooks.c'), os.path.join(HARN, 'live_shim.c')], s['live_' + c][1] + simf)
    s['fault'] = ([os.path.join(HARN, 'fault.c')], ['-ldl'])
    s['nomem'] = ([os.path.join(HARN, 'nomem.c')], [])
    s['octave'] = ([os.path.join(REPO, 'Octave/loadsrf.c'), os.path.join(HARN, 'fake_mex.c')] + common() + [ui],
                   base + ['-I' + os.path.join(HARN, 'mex')])
    return s


def prog_specs():
    """The real command line programs."""
    base = ['-DUSE_STDLIB_RND', '-DDEC_NEEDS_SIGMA', '-I' + REPO, '-I' + os.path.join(REPO, 'lib')]
    sim = g('simulators/*.c') + g('common/*.c')
    return {
        'dtrm0_bg': (g('dtrm/*.c', exclude=('dtrm1.c',)) + sim, base),
        'dtrm1_bg': (g('dtrm/*.c', exclude=('dtrm0.c',)) + g('rm1_ml/*.c') + sim, base),
        'dtrm_glp_bg': (g('dtrm_glp/*.c') + sim, base + ['-DDEC_NEEDS_CSNRN']),
        'ca_polar_scl_bg': (g('polar_scl/*.c') + sim, base),
    }


def msan_specs():
    """Drivers of the codecs under MemorySanitizer."""
    r = {}
    for c in ('dtrm0', 'dtrm1', 'dtrm_glp', 'polar'):
        src, fl = lib_specs()[c]
        r['msan_' + c] = (src + [os.path.join(HARN, 'msan_driver.c')], fl)
    for n, (src, fl) in prog_specs().items():
        r['msan_' + n] = (src, fl)
    return r


def sh(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise RuntimeError('%s failed: %s\n%s' % (what, ' '.join(cmd), p.stdout[-3000:]))


class Builder:
    def __init__(self):
        self.root = os.path.join(VERIF, 'build')
        os.makedirs(self.root, exist_ok=True)
        hf = sorted(glob.glob(os.path.join(HARN, '*')) + glob.glob(os.path.join(HARN, 'mex', '*')))
        hf = [f for f in hf if os.path.isfile(f)]
        self.harness_files = hf
        self.rkey = tree_hash(repo_files() + [f for f in hf if f.endswith('.c') or f.endswith('.h')],
                              REPO + open(os.path.abspath(__file__)).read())
        self.libroot = os.path.join(self.root, 'lib-' + self.rkey)

    def lock(self):
        self.lk = open(os.path.join(self.root, '.lock'), 'w')
        fcntl.flock(self.lk, fcntl.LOCK_EX)

    def unlock(self):
        self.lk.close()

    def prune(self):
        """Keep the build directory small."""
        for pat, keep in (('lib-*', 3), ('obj-*', 400)):
            ds = sorted(glob.glob(os.path.join(self.root, pat)), key=os.path.getmtime)
            for d in ds[:-keep]:
                if d != self.libroot:
                    if os.path.isdir(d):
                        shutil.rmtree(d, ignore_errors=True)
                    else:
                        os.unlink(d)

    def build_libs(self, variants, names):
        jobs = []
        specs = lib_specs()
        progs = prog_specs()
        msan = msan_specs()
        for v in variants:
            d = os.path.join(self.libroot, v)
            os.makedirs(d, exist_ok=True)
            for n in names:
                if n in progs:
                    src, fl = progs[n]
                    out = os.path.join(d, n)
                    cmd = [GCC] + CFLAGS[v] + src + fl + ['-lm', '-o', out + '.tmp%d' % os.getpid()]
                elif n in msan:
                    if v != 'plain':
                        continue
                    src, fl = msan[n]
                    out = os.path.join(d, n)
                    cmd = [CLANG, '-O1', '-g', '-w', '-fsanitize=memory', '-fno-omit-frame-pointer'] + src + fl + ['-lm', '-o', out + '.tmp%d' % os.getpid()]
                else:
                    src, fl = specs[n]
                    out = os.path.join(d, n + '.so')
                    cmd = [GCC, '-shared', '-fPIC', '-Wl,-Bsymbolic', '-Wl,-z,defs' if v == 'plain' else '-Wl,--no-as-needed'] + CFLAGS[v] + src + fl + ['-lm', '-o', out + '.tmp%d' % os.getpid()]
                if not os.path.exists(out):
                    jobs.append((cmd, out))

        def one(j):
            try:
                sh(j[0], 'building ' + os.path.basename(j[1]))
            except RuntimeError:
                if not j[1].endswith(('_dbg.so', '_ops.so')):
                    raise
                open(j[1], 'w').close()   # the diagnostic build does not compile: nothing to compare
                return
            os.rename(j[0][-1], j[1])
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(one, jobs))

    def obj(self, src, flags):
        deps = [f for f in self.harness_files if f.endswith('.hpp')]
        key = tree_hash([src] + deps, ' '.join(flags))
        out = os.path.join(self.root, 'obj-%s-%s.o' % (os.path.basename(src), key))
        if not os.path.exists(out):
            tmp = out + '.tmp%d' % os.getpid()
            sh([GXX, '-std=c++17', '-O2', '-g1', '-w', '-c', src, '-o', tmp] + flags, 'compiling ' + src)
            os.rename(tmp, out)
        return out

    def build_harness(self, group, variants):
        srcs = [os.path.join(HARN, s) for s in COMMON_SRC + GROUPS[group]['src']]
        jobs = []
        for s in srcs:
            if os.path.basename(s) == 'pbt.cpp':
                for v in variants:
                    jobs.append((s, ['-DASAN_VARIANT'] if v == 'asan' else [], v))
            else:
                jobs.append((s, [], None))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(lambda j: (self.obj(j[0], j[1]), j[2]), jobs))
        exes = {}
        for v in variants:
            ol = [o for o, vv in objs if vv in (None, v)]
            key = tree_hash([], ' '.join(ol) + v)
            exe = os.path.join(self.root, 'exe-%s-%s-%s' % (group, v, key))
            if not os.path.exists(exe):
                tmp = exe + '.tmp%d' % os.getpid()
                sh([GXX] + ol + (['-fsanitize=address,undefined'] if v == 'asan' else []) + ['-o', tmp, '-ldl', '-lm'], 'linking')
                os.rename(tmp, exe)
            exes[v] = exe
        return exes


def group_of(prop):
    for k, v in GROUPS.items():
        if prop in v['props']:
            return k
    sys.exit('unknown property ' + prop)


def known_findings(prop):
    """id -> text of the findings of the property which are not repaired."""
    r = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    for l in (open(p) if os.path.exists(p) else []):
        w = l.split(None, 3)
        if len(w) == 4 and w[0] == 'known:' and w[1] == 'property=' + prop:
            r[w[2]] = w[3].strip()
    return r


def ensure(group, variants=None):
    b = Builder()
    b.lock()
    try:
        v = variants or GROUPS[group]['variants']
        b.build_libs(v, GROUPS[group]['libs'])
        exes = b.build_harness(group, v)
        b.prune()
    finally:
        b.unlock()
    return b, exes


# Cases of the quick tier, relative to the numbers in the harness: those of the cheap checks are raised.
QUICK_SCALE = {'C01': 2, 'C02': 2, 'C03': 2, 'C04': 4, 'C05': 2, 'C11': 3, 'C12': 3, 'C13': 2, 'C14': 2, 'C15': 3, 'C16': 3, 'C19': 2,
               'C20': 3, 'C24': 3, 'C28': 2, 'C31': 4, 'C33': 4, 'C34': 2}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    ap.add_argument('--replay')
    ap.add_argument('--build', action='store_true')
    ap.add_argument('--sub', default='')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--workers', type=int, default=0)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    t0 = time.time()
    try:
        if a.build:
            for k in GROUPS:
                ensure(k)
            print('built in %.1f s' % (time.time() - t0))
            return 0
        grp = group_of(a.prop)
        variants = None
        if a.replay:
            variants = [l.split()[1] for l in open(a.replay) if l.startswith('variant ')][:1]
        b, exes = ensure(grp, variants)
    except RuntimeError as e:
        print('BUILD ERROR: %s' % e)
        return 2
    tb = time.time() - t0
    if a.tier == 'quick':
        a.scale *= QUICK_SCALE.get(a.prop, 1)
    outdir = os.path.join(VERIF, 'out')
    os.makedirs(os.path.join(outdir, 'replays'), exist_ok=True)
    # No case is started after this many seconds (a check has 900 s).
    budget = float(os.environ.get('VERIF_BUDGET_S', '500' if a.tier == 'quick' else '780'))
    workers = a.workers or max(2, min(16, os.cpu_count() or 4))
    env = dict(os.environ, LC_ALL='C', ECV_BUILD=b.libroot, UBSAN_OPTIONS='', ASAN_OPTIONS='')
    env.pop('UBSAN_OPTIONS'); env.pop('ASAN_OPTIONS')
    known = known_findings(a.prop)
    env['ECV_KNOWN'] = ' '.join(sorted(known))
    if a.replay:
        v = variants[0]
        return subprocess.call([exes[v], 'replay', '--lib', os.path.join(b.libroot, v), '--repo', REPO, a.replay], env=env)
    parts, rc = [], 0
    for v in exes:
        fd, part = tempfile.mkstemp(prefix='ecvpart'); os.close(fd)
        cmd = [exes[v], 'run', '--prop', a.prop, '--tier', a.tier, '--seed', str(a.seed), '--out', part,
               '--replaydir', os.path.join(outdir, 'replays'), '--lib', os.path.join(b.libroot, v), '--repo', REPO,
               '--scale', str(a.scale), '--workers', str(workers),
               '--deadline', str(max(30, budget - (time.time() - t0)))]
        if a.sub:
            cmd += ['--sub', a.sub]
        r = subprocess.call(cmd, env=env)
        try:
            parts.append(json.load(open(part)))
        except Exception:
            print('no result of the %s run (exit status %d)' % (v, r))
            r = r or 2
        os.unlink(part)
        if r == 1:
            rc = 1
        elif r != 0 and rc == 0:
            rc = 2
        if rc == 1:
            break
    subs = [s for p in parts for s in p['subs']]
    ev = sum(s['evaluations'] for s in subs)
    nt = sum(s['distinct_nontrivial'] for s in subs)
    samples = [{'sub': s['name'], 'case': c} for s in subs for c in s['samples']]
    if rc == 0 and (ev == 0 or nt == 0):
        print('nothing was checked')
        rc = 2
    for k, txt in sorted(known.items()):
        met = sum(s['labels'].get('known: ' + k, 0) for s in subs)
        if met:
            print('KNOWN-FINDING: property=%s %s: %s (met in %d cases)' % (a.prop, k, txt, met))
    evidence = {
        'property': a.prop, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': ev, 'distinct_nontrivial': nt,
            'rule': '; '.join('%s: %s' % (s['name'], s['rule']) for s in subs),
            'samples': samples[:40],
            'sub_properties': [{k: s[k] for k in ('name', 'variant', 'planned', 'evaluations', 'distinct_nontrivial', 'labels')} for s in subs],
            'generator': 'choice sequences, integrated shrinking; a case is a pure function of (seed, property, index)',
        },
        'assumptions': GROUPS[grp].get('assumptions', []),
        'wall_s': round(time.time() - t0, 2), 'violations': sum(p['violations'] for p in parts),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    print('%s %s seed %d: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)%s' % (
        a.prop, a.tier, a.seed, ev, nt, time.time() - t0, tb, '' if rc == 0 else ' -> exit %d' % rc))
    if a.v:
        for s in subs:
            print('  %s/%s: %d evaluations, %d non-trivial, %s' % (s['variant'], s['name'], s['evaluations'], s['distinct_nontrivial'], s['labels']))
    return rc


if __name__ == '__main__':
    sys.exit(main())
