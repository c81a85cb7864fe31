#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [-v]

Compiles the current /repo sources to LLVM bitcode, executes the property's
harnesses symbolically with engine/build/symx (z3 decides every branch, address
and assertion), confirms every counterexample by replaying its inputs against a
native build of the same sources, and writes evidence/<id>.json.
exit 0: held on everything explored. exit 1: VIOLATION line printed.
"""
import sys, os, re, json, time, subprocess, tempfile, shutil, fcntl, hashlib, traceback
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SX_REPO', '/repo')
SRC = REPO + '/src'
LLVM = '/usr/lib/llvm-18/bin'
sys.path.insert(0, VERIF)
import specs

T0 = time.time()
VERBOSE = False
ENV = dict(os.environ, LC_ALL='C', ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1',
           MSAN_OPTIONS='', TSAN_OPTIONS='halt_on_error=1 exitcode=66')
for k in ('CFLAGS', 'LDFLAGS'): ENV.pop(k, None)

def log(*a):
    if VERBOSE: print(*a, flush=True)

def sh(cmd, timeout=300):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=ENV)
        return p.returncode, p.stdout.decode('latin1')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('latin1')

def ensure_engine():
    b = VERIF + '/engine/build'
    os.makedirs(b, exist_ok=True)
    with open(b + '/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, out = sh(['make', '-C', VERIF + '/engine'], 900)
        if rc != 0: raise RuntimeError('engine build failed: ' + out[-2000:])

# ------------------------------------------------------------------ building
class Build:
    """One scratch directory; object files cached by (source, flags, mode)."""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='sxchk.')
        self.cache = {}
        self.symmap = None
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def stubbed(self, path, stubs):
        """Copy of a source in which the definition of each stubbed static
        function is renamed, so that the harness supplies the function."""
        text = open(path, encoding='latin1').read()
        protos = ''
        done = []
        for fn, proto in stubs.items():
            pat = re.compile(r'^(static\s+)?((?:inline|const|unsigned|struct|[A-Za-z_]\w*|\*)[\s\*]+)+' + fn + r'(?=\s*\([^;{]*\)\s*\{)', re.M)
            ms = list(pat.finditer(text))
            if len(ms) != 1: continue
            m = ms[0]
            text = text[:m.end() - len(fn)] + 'sxorig_' + fn + text[m.end():]
            protos += proto + ' '
            done.append(fn)
        if not done: return path, done
        out = '%s/stub_%s_%s' % (self.dir, hashlib.md5((path + repr(sorted(stubs))).encode()).hexdigest()[:8], os.path.basename(path))
        hdr = out + '.h'
        open(hdr, 'w').write('#include <stdint.h>\n#include <stddef.h>\n#include <stdbool.h>\n#include <stdio.h>\n' + protos + '\n')
        open(out, 'w', encoding='latin1').write('#include "%s"\n#line 1 "%s"\n' % (hdr, path) + text)
        return out, done

    def obj(self, src, defs, mode):
        key = (src, tuple(defs), mode)
        if key in self.cache: return self.cache[key]
        out = '%s/%s.%s' % (self.dir, hashlib.md5(repr(key).encode()).hexdigest()[:16], 'bc' if mode == 'bc' else 'o')
        inc = ['-include', VERIF + '/rt/redirect.h', '-I' + VERIF + '/rt', '-I' + VERIF + '/harness', '-I' + SRC, '-DNOOPENSSL', '-DNOURING', '-DNOJEMALLOC', '-DNOMIMALLOC'] + list(defs)
        if mode == 'bc':
            cmd = ['clang', '-O1', '-fno-pic', '-fno-pie', '-fno-inline', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-gline-tables-only', '-emit-llvm', '-c', '-w'] + inc
            if src.endswith('libc_model.c'): cmd = cmd[:len(cmd)-len(inc)] + ['-fno-builtin', '-ffreestanding', '-I' + VERIF + '/rt']
        else:
            cc = {'asan': ['gcc', '-fsanitize=address', '-O0'], 'msan': ['clang', '-fsanitize=memory', '-O1'], 'tsan': ['clang', '-fsanitize=thread', '-O1']}[mode]
            cmd = cc + ['-g', '-w', '-c', '-DSX_NATIVE'] + inc
            if src.endswith('rt/native.c') and mode == 'tsan': cmd = ['clang', '-O1', '-w', '-c', '-DSX_NATIVE', '-DSX_SPIN'] + inc
        rc, o = sh(cmd + [src, '-o', out], 120)
        self.cache[key] = (out if rc == 0 else None, o)
        return self.cache[key]

    def objs(self, srcs, defs, mode):
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda s: self.obj(s, defs, mode), srcs))

    def symbols(self):
        """symbol -> defining /repo source (only built when a listed source needs another one)"""
        if self.symmap is None:
            self.symmap = {}
            files = [f for f in sorted(os.listdir(SRC)) if f.endswith('.c')]
            for f, (o, _) in zip(files, self.objs([SRC + '/' + f for f in files], (), 'bc')):
                if not o: continue
                rc, out = sh([LLVM + '/llvm-nm', '--defined-only', '-g', o])
                for l in out.splitlines():
                    p = l.split()
                    if len(p) >= 2 and p[-2] in 'TDBRC': self.symmap.setdefault(p[-1], f)
        return self.symmap

    def sources(self, h, defs):
        srcs = []; missing = []
        for r in h.get('repo', []):
            p = SRC + '/' + r
            if h.get('stubs'):
                p, done = self.stubbed(p, h['stubs'])
                missing += done
            srcs.append(p)
        lost = [s for s in h.get('stubs', {}) if s not in missing and s not in h.get('optstubs', [])]
        if lost: return None, 'functions to replace not found: ' + ','.join(lost)
        return srcs, None

    def bitcode(self, h, defs):
        srcs, err = self.sources(h, defs)
        if err: return None, err
        mine = [VERIF + '/harness/' + h['file']]
        allsrc = mine + srcs + [VERIF + '/rt/libc_model.c']
        for attempt in range(4):
            res = self.objs(allsrc, defs, 'bc')
            bad = [(s, o) for s, (b, o) in zip(allsrc, res) if not b]
            if bad: return None, 'does not compile: %s: %s' % (bad[0][0], bad[0][1][-600:])
            out = '%s/%s.all.bc' % (self.dir, h['name'])
            rc, o = sh([LLVM + '/llvm-link', '-o', out] + [b for b, _ in res])
            if rc != 0: return None, 'link: ' + o[-600:]
            rc, und = sh([LLVM + '/llvm-nm', '-u', out])
            need = [l.split()[-1] for l in und.splitlines() if l.strip()]
            need = [n for n in need if not n.startswith(('sx_', 'llvm.'))]
            add = set()
            if need and h.get('autolink', True):
                sm = self.symbols() if any(n not in specs.KNOWN_EXTERNAL for n in need) else {}
                for n in need:
                    f = sm.get(n)
                    if f and SRC + '/' + f not in allsrc and f not in h.get('repo', []) and f not in ('main.c',): add.add(SRC + '/' + f)
            if not add: break
            allsrc += sorted(add)
        h['_allsrc'] = [s for s in allsrc if not s.endswith('libc_model.c')]
        return out, None

    def native(self, h, defs, mode='asan'):
        out = '%s/%s.%s' % (self.dir, h['name'], mode)
        if os.path.exists(out): return out, None
        srcs = h['_allsrc'] + [VERIF + '/rt/native.c']
        res = self.objs(srcs, defs, mode)
        bad = [(s, o) for s, (b, o) in zip(srcs, res) if not b]
        if bad: return None, 'native compile: %s: %s' % (bad[0][0], bad[0][1][-600:])
        cc = {'asan': ['gcc', '-fsanitize=address'], 'msan': ['clang', '-fsanitize=memory'], 'tsan': ['clang', '-fsanitize=thread']}[mode]
        rc, o = sh(cc + ['-o', out] + [b for b, _ in res] + ['-lpthread', '-lm'])
        if rc != 0: return None, 'native link: ' + o[-600:]
        return out, None

# ------------------------------------------------------------------ running
def run_symx(bc, outf, h, tl):
    tm = h.get('time', 60)
    cmd = [VERIF + '/engine/build/symx', bc, '--out=' + outf, '--time=%d' % tm, '--jobs=%d' % h.get('jobs', 8),
           '--seed=%s' % os.environ.get('VERIF_SEED', '1'), '--witness=%d' % h.get('witness', 3)]
    for k in ('preempt', 'maxinst', 'maxviol', 'maxpaths', 'opaquefp'):
        if k in h: cmd.append('--%s=%d' % (k, h[k]))
    env = dict(ENV)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=tm + 60, env=env)
        return p.returncode, p.stdout.decode('latin1')
    except subprocess.TimeoutExpired:
        return 'timeout', ''

def merge(outf):
    tot = {}
    for line in open(outf, errors='replace'):
        try: d = json.loads(line)
        except Exception: tot['garbled'] = tot.get('garbled', 0) + 1; continue
        for k, v in d.items():
            if k == 'maxQuery': tot[k] = max(tot.get(k, 0), v)
            elif k in ('viol', 'witnesses'): tot.setdefault(k, []).extend(v)
            elif k == 'funcs':
                f = tot.setdefault('funcs', {})
                for n, (hit, al, fl) in v.items():
                    a = f.setdefault(n, [0, al, fl]); a[0] = max(a[0], hit)
            elif isinstance(v, dict):
                f = tot.setdefault(k, {})
                for n, c in v.items(): f[n] = f.get(n, 0) + c
            else: tot[k] = tot.get(k, 0) + v
    return tot

def replay(exe, inputs, preempt, timeout=20):
    f = exe + '.in'
    open(f, 'w').write(inputs)
    env = dict(ENV, SX_PREEMPT=str(preempt))
    try:
        p = subprocess.run([exe, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=os.path.dirname(exe))
        return p.returncode, p.stdout.decode('latin1')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('latin1')

def confirm(b, h, defs, v):
    """Replay a counterexample natively. Returns (confirmed, text)."""
    order = ['asan']
    if v['kind'] == 'uninit': order = ['msan', 'asan']
    if v['kind'] == 'race': order = ['tsan', 'asan']
    txt = ''
    for mode in order:
        exe, err = b.native(h, defs, mode)
        if not exe: txt += err + '\n'; continue
        rc, out = replay(exe, v['inputs'], h.get('preempt', 2), 60 if v['kind'] == 'hang' else 20)
        txt += '--- %s replay: exit %s\n%s\n' % (mode, rc, out[-3000:])
        if rc == 99: return True, txt
        if rc in (77, 78, 0, 2): continue
        if rc == 'timeout':
            if v['kind'] == 'hang': return True, txt
            continue
        return True, txt   # sanitizer report, abort or fatal signal
    return False, txt

def load_known(prop):
    out = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) match=/(.*?)/ (.*)', l)
            if m and m.group(1) == prop: out.append((re.compile(m.group(2)), m.group(3)))
    return out

def main():
    global VERBOSE
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    for i, a in enumerate(args):
        if a == '--tier': tier = args[i + 1]
        if a == '--only': only = args[i + 1]
        if a == '-v': VERBOSE = True
    if tier not in ('quick', 'thorough'): tier = 'quick'
    budget = 600 if tier == 'quick' else 3000
    hs = specs.harnesses(prop, tier)
    if only: hs = [h for h in hs if h['name'] == only]
    if not hs: print('no harness for', prop); return 0
    ensure_engine()
    known = load_known(prop)
    agg = dict(paths=0, pathsDead=0, insts=0, forks=0, branches=0, obligations=0, obligConcrete=0, obligDischarged=0, incomplete=0,
               queries=0, sat=0, unsat=0, unknown=0, cacheHits=0, solverTime=0.0, maxQuery=0.0)
    funcs = {}; notes = []; per = []; violations = []; knownhits = {}; unconf = []; traces = 0; tracebad = 0; samples = []
    b = Build()
    try:
        for h in hs:
            left = budget - (time.time() - T0)
            if left < 30: notes.append('harness %s skipped: time budget' % h['name']); continue
            h['time'] = min(h.get('time', 60), int(left) - 15)
            defs = tuple(h.get('defs', []))
            t1 = time.time()
            bc, err = b.bitcode(h, defs)
            if err:
                notes.append('harness %s not run: %s' % (h['name'], err)); print('NOTE', prop, h['name'], 'not run:', err[:400]); continue
            outf = '%s/%s.out' % (b.dir, h['name'])
            rc, o = run_symx(bc, outf, h, left)
            if not os.path.exists(outf): notes.append('harness %s: engine exit %s %s' % (h['name'], rc, o[-300:])); print('NOTE', notes[-1]); continue
            r = merge(outf)
            if rc not in (0, 3): r['crashed'] = r.get('crashed', 0) + 1   # ended from outside: workers' results are missing
            for k in agg:
                if k == 'maxQuery': agg[k] = max(agg[k], r.get(k, 0))
                else: agg[k] += r.get(k, 0)
            for n, (hit, al, fl) in r.get('funcs', {}).items():
                if '/repo/' in fl or fl.startswith(SRC):
                    a = funcs.setdefault(n, [0, al, fl]); a[0] = max(a[0], hit)
            complete = not r.get('timedOut') and not r.get('incomplete') and not r.get('crashed') and not r.get('garbled')
            missing = [c for c in h.get('covers', []) if not r.get('covers', {}).get(c)]
            # witnesses
            wok = wbad = 0
            if r.get('witnesses'):
                exe, err = b.native(h, defs)
                if exe:
                    for w in r['witnesses'][:h.get('maxwit', 24)]:
                        inp, _, ob = w.partition('#obs\n')
                        rc2, out2 = replay(exe, inp, h.get('preempt', 2))
                        got = [l.split()[1] for l in out2.splitlines() if l.startswith('SX-OBS')]
                        if rc2 == 0 and got == ob.split(): wok += 1
                        else:
                            wbad += 1
                            log('witness mismatch', h['name'], rc2, got[:10], ob.split()[:10], out2[-1500:], inp)
                        if len(samples) < 12: samples.append({'harness': h['name'], 'inputs': inp.strip().split('\n')[:40], 'observed': got[:40], 'native_exit': rc2})
                else: notes.append('%s: %s' % (h['name'], err))
            traces += wok; tracebad += wbad
            # counterexamples
            seen = set()
            for v in r.get('viol', []):
                key = v['kind'] + '|' + v['msg'] + '|' + ('' if v['kind'] == 'hang' else v['where'])
                if key in seen: continue
                kf = None
                for rx, what in known:
                    if rx.search('%s %s %s %s' % (h['name'], v['kind'], v['msg'], v['where'])): kf = what
                ok, txt = confirm(b, h, defs, v)
                if not ok:
                    unconf.append({'harness': h['name'], 'kind': v['kind'], 'msg': v['msg'], 'where': v['where']})
                    log('UNCONFIRMED', h['name'], v['kind'], v['msg'], v['where'], v['stack'], '\n' + v['inputs'], txt)
                    continue
                seen.add(key)
                if kf: knownhits[kf] = 1; continue
                violations.append((h, v, txt))
            per.append({'harness': h['name'], 'bounds': h.get('bounds', ''), 'complete_within_bounds': complete, 'paths': r.get('paths', 0), 'infeasible': r.get('pathsDead', 0),
                        'instructions': r.get('insts', 0), 'obligations': r.get('obligations', 0), 'discharged_by_solver': r.get('obligDischarged', 0), 'decided_concretely': r.get('obligConcrete', 0),
                        'queries': r.get('queries', 0), 'solver_time_s': round(r.get('solverTime', 0), 2), 'wall_s': round(time.time() - t1, 1), 'timed_out': bool(r.get('timedOut')),
                        'incomplete_reasons': r.get('why', {}), 'reachability': r.get('covers', {}), 'unreached_labels': missing, 'path_ends': r.get('ends', {}),
                        'crashed_workers': r.get('crashed', 0), 'witnesses_replayed': wok, 'witness_mismatch': wbad, 'replaced_functions': list(h.get('stubs', {}).keys()), 'defs': list(defs)})
            log('%-28s %6.1fs paths=%d dead=%d inst=%d obl=%d dis=%d q=%d st=%.1f max=%.1f incompl=%d timeout=%d crash=%s viol=%d wit=%d/%d miss=%s why=%s' % (h['name'], time.time() - t1, r.get('paths', 0), r.get('pathsDead', 0), r.get('insts', 0),
                r.get('obligations', 0), r.get('obligDischarged', 0), r.get('queries', 0), r.get('solverTime', 0), r.get('maxQuery', 0), r.get('incomplete', 0), r.get('timedOut', 0), r.get('crashed', 0), len(r.get('viol', [])), wok, wbad, missing, dict(list(r.get('why', {}).items())[:6])))
            if VERBOSE and '-f' in args:
                for n, (hit, al, fl) in sorted(r.get('funcs', {}).items()): log('   ', n, '%d/%d' % (hit, al), fl)
        # ---- reporting
        rdir = VERIF + '/evidence/replay'
        shown = 0
        for n, (h, v, txt) in enumerate(violations):
            os.makedirs(rdir, exist_ok=True)
            p = '%s/%s-%d.txt' % (rdir, prop, n)
            open(p, 'w').write('# property %s harness %s\n# %s: %s\n# at %s\n# stack %s\n# defines: %s\n# inputs (replayed against the native build):\n%s\n%s\n' % (prop, h['name'], v['kind'], v['msg'], v['where'], v['stack'], ' '.join(h.get('defs', [])), v['inputs'], txt))
            print('%s: %s at %s (harness %s)' % (v['kind'], v['msg'], v['where'], h['name']))
            print('VIOLATION property=%s replay=%s' % (prop, p))
        for rx, what in known:
            print('KNOWN-FINDING: property=%s %s' % (prop, what) + ('' if what in knownhits else ' (listed; not reproduced in this tier)'))
        for h in per:
            if h['unreached_labels']: notes.append('%s: labels not reached: %s' % (h['harness'], ','.join(h['unreached_labels'])))
        cov = {'states': agg['paths'] + agg['pathsDead'] + agg['forks'], 'transitions': agg['branches'] + agg['forks'],
               'traces_validated_against_impl': traces, 'samples': samples,
               'paths': agg['paths'], 'infeasible_prefixes': agg['pathsDead'], 'ir_instructions': agg['insts'],
               'obligations': agg['obligations'], 'obligations_discharged_by_solver': agg['obligDischarged'], 'obligations_decided_without_solver': agg['obligConcrete'],
               'queries': {'total': agg['queries'], 'sat': agg['sat'], 'unsat': agg['unsat'], 'unknown': agg['unknown'], 'cache_hits': agg['cacheHits'], 'solver_time_s': round(agg['solverTime'], 2), 'slowest_s': round(agg['maxQuery'], 2)},
               'functions_encoded': {n: '%d/%d IR instructions reached (%s)' % (hit, al, os.path.basename(fl)) for n, (hit, al, fl) in sorted(funcs.items())},
               'harnesses': per, 'complete_within_bounds': bool(per) and all(p['complete_within_bounds'] for p in per) and len(per) == len(hs),
               'witness_mismatches': tracebad, 'unconfirmed_counterexamples': unconf, 'notes': notes}
        ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'coverage': cov,
              'wall_s': round(time.time() - T0, 2), 'assumptions': specs.assumptions(prop), 'violations': len(violations)}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open(VERIF + '/evidence/%s.json' % prop, 'w') as f: json.dump(ev, f, indent=1)
        print('%s %s: %d harnesses, %d paths, %d obligations, %d queries, %.1fs solver, %d native replays agreed (%d not), complete=%s, %.0fs' % (
            prop, tier, len(per), agg['paths'], agg['obligations'], agg['queries'], agg['solverTime'], traces, tracebad, cov['complete_within_bounds'], time.time() - T0))
        for n in notes: print('NOTE', n[:300])
        return 1 if violations else 0
    finally:
        b.close()

if __name__ == '__main__':
    try: rc = main()
    except SystemExit: raise
    except Exception:
        traceback.print_exc(); rc = 3
    sys.exit(rc)
