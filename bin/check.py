#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of its LLVM bitcode.

check.py <property> [--tier quick|thorough] [--harness NAME] [--keep]

exit 0: the property held on everything explored; exit 1 and a VIOLATION line: a counterexample that
was replayed natively against the real code; exit 2: no verdict (build problem, vacuous run,
non-reproducing model, ...)."""
import json, os, subprocess, sys, time, shutil, re, signal, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
from spec import PROPS, ENGINE_DEFAULTS
B = os.environ.get('VF_BUILD', os.path.join(V, 'build'))
NPROC = os.cpu_count() or 4
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='1.70.0', CARGO_NET_OFFLINE='true', CFLAGS='-O1 -g0', CARGO_INCREMENTAL='0', CARGO_TERM_COLOR='never')
for k in ('RUSTFLAGS', 'CARGO_BUILD_RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR'): ENV.pop(k, None)

class NoVerdict(Exception): pass
def sh(cmd, log, **kw):
    with open(log, 'w') as f:
        return subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, start_new_session=True, **kw)
def finish(p, log, what):
    if p.wait() != 0:
        raise NoVerdict('%s failed:\n%s' % (what, open(log, errors='replace').read()[-3000:]))

class Build:
    """engine, environment model, harness bitcode and native replay binaries for one property"""
    def __init__(self, pid, crate):
        os.makedirs(B, exist_ok=True)
        self.pid, self.crate = pid, crate
        self.dir = os.path.join(V, crate)
        self.tgt = os.path.join(B, 'target-' + crate)
        self.bc = os.path.join(B, pid + '.bc'); self.bin = os.path.join(B, pid + '.native'); self.model = os.path.join(B, pid + '.model')
        self.env_bc = os.path.join(B, 'env.bc'); self.engine = os.path.join(B, 'engine')
        self.name = 'vharness'
    def cargo(self, extra, log, env={}):
        cmd = ['cargo', 'rustc', '--release', '--offline', '--target-dir', self.tgt] + extra
        return sh(cmd, log, cwd=self.dir, env=dict(ENV, **env))
    def clean_outputs(self):
        d = os.path.join(self.tgt, 'release', 'deps')
        if os.path.isdir(d):
            for f in os.listdir(d):
                if f.startswith(self.name + '-') : os.unlink(os.path.join(d, f))
        fp = os.path.join(self.tgt, 'release', '.fingerprint')
        if os.path.isdir(fp):
            for f in os.listdir(fp):
                if f.startswith(self.name + '-'): shutil.rmtree(os.path.join(fp, f))
    def symbolic(self):
        el = os.path.join(B, 'engine.log'); bl = os.path.join(B, self.pid + '.bc.log'); ml = os.path.join(B, 'env.log')
        stamp = hashlib.sha256(b''.join(open(os.path.join(V, 'engine', f), 'rb').read() for f in sorted(os.listdir(os.path.join(V, 'engine'))))).hexdigest()
        sf = os.path.join(B, 'engine.stamp'); pe = None
        if not (os.path.exists(self.engine) and os.path.exists(sf) and open(sf).read() == stamp):
            pe = sh(['bash', os.path.join(V, 'engine', 'build.sh'), B], el)
        pm = sh(['clang-18', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-ffreestanding', '-fno-builtin', '-emit-llvm', '-c', os.path.join(V, 'models', 'env.c'), '-o', self.env_bc], ml)
        self.clean_outputs()
        pb = self.cargo(['--features', 'symbolic', '--', '--cfg', 'only', '--cfg', self.pid.lower(), '-C', 'linker=/bin/true', '--emit=llvm-bc', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp', '-C', 'embed-bitcode=yes'], bl)
        finish(pb, bl, 'compiling the harness against /repo')
        finish(pm, ml, 'environment model')
        if pe: finish(pe, el, 'engine build'); open(sf, 'w').write(stamp)
        out = [f for f in os.listdir(os.path.join(self.tgt, 'release', 'deps')) if f.startswith(self.name + '-') and f.endswith('.bc')]
        if len(out) != 1: raise NoVerdict('no bitcode produced: %s' % out)
        shutil.copy(os.path.join(self.tgt, 'release', 'deps', out[0]), self.bc)
    def native_start(self):
        self.nl = os.path.join(B, self.pid + '.native.log')
        self.np = self.cargo(['--', '--cfg', 'only', '--cfg', self.pid.lower()], self.nl)
    def native(self):
        if self.np:
            finish(self.np, self.nl, 'native build'); self.np = None
            shutil.copy(os.path.join(self.tgt, 'release', self.name), self.bin)
        return self.bin
    def native_model(self):
        """native build with the modelled compression library in place of the real one"""
        self.native()
        if not os.path.exists(self.model) or os.path.getmtime(self.model) < os.path.getmtime(self.bin):
            o = os.path.join(B, 'env.o'); l = os.path.join(B, 'model.log')
            finish(sh(['clang-18', '-O1', '-DVF_NATIVE', '-c', os.path.join(V, 'models', 'env.c'), '-o', o], l), l, 'model object')
            p = self.cargo(['--', '--cfg', 'only', '--cfg', self.pid.lower(), '--cfg', 'modelled', '-C', 'linker=' + os.path.join(V, 'models', 'model-cc')], l, dict(VF_MODEL_OBJ=o))
            finish(p, l, 'native model build')
            shutil.copy(os.path.join(self.tgt, 'release', self.name), self.model)
        return self.model
    def replay(self, binary, harness, tape, params, timeout=60, jitter=0):
        env = dict(os.environ, VF_REPLAY=tape, VF_JITTER=str(jitter), RUST_BACKTRACE='0', **{'VF_PARAM_' + k: str(v) for k, v in params.items()})
        def lim():
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        p = subprocess.Popen([binary, harness], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, preexec_fn=lim, start_new_session=True)
        try: o, e = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.communicate(); return 'timeout', '', ''
        return p.returncode, o.decode(errors='replace'), e.decode(errors='replace')

def tape_text(syms, head=''):
    return head + ''.join('%s %d\n' % (n, v) for n, v in syms)
def failed(rc): return rc == 77 or rc == 101 or rc == 'timeout' or (isinstance(rc, int) and rc < 0)

def known_findings():
    f = os.path.join(V, 'known_findings.txt'); r = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\S+) harness=(\S+) match="([^"]*)" (.*)', l)
            if m: r.append(m.groups())
    return r

def fn_kind(d):
    for p in ('banyan::', 'banyan_utils::', '<banyan::', '<banyan_utils::'):
        if d.startswith(p): return True
    if d.startswith(tuple(x + 'vharness::' + m + '::' for x in ('', '<') for m in ('tags', 'tag_index', 'dump', 'sqlite'))): return True
    return ('banyan' in d or 'vharness::tag' in d or 'vharness::sqlite' in d or 'vharness::dump' in d) and 'vharness::h_' not in d

def run(pid, tier, seed, only=None):
    spec = PROPS[pid]; t0 = time.time()
    b = Build(pid, spec.get('crate', 'harness'))
    b.symbolic(); t_build = time.time() - t0
    b.native_start()
    ev_dir = os.path.join(V, 'evidence'); os.makedirs(ev_dir, exist_ok=True)
    rep_dir = os.path.join(ev_dir, 'replay'); os.makedirs(rep_dir, exist_ok=True)
    for f in os.listdir(rep_dir):
        if f.startswith(pid + '-'): os.unlink(os.path.join(rep_dir, f))
    agg = dict(states=0, transitions=0, paths=0, instructions=0, solver_queries=0, solver_calls=0, sat=0, unsat=0, unknown=0, solver_s=0.0, assertions=0, assertions_with_symbolic_condition=0, model_validated=0)
    per, samples, funcs, viol, problems, known, notes = [], [], {}, [], [], [], []
    complete = True
    hs = [h for h in spec['harnesses'] if not only or h['name'] == only]
    budget = spec.get('time', {}).get(tier) or (100 if tier == 'quick' else 3000)
    for hi, h in enumerate(hs):
        if tier == 'quick' and h.get('thorough_only'): continue
        params = dict(h.get('params', {})); params.update(h.get(tier, {}))
        out = os.path.join(B, 'out-%s-%s' % (pid, h['name'] + h.get('tag', '')))
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        tl = h.get('time', {}).get(tier) or budget / max(1, sum(1 for x in hs if tier not in x.get('time', {})))
        cmd = [b.engine, b.bc, b.env_bc, '--entry', h['name'], '--out', out, '--workers', str(NPROC), '--time', str(tl), '--max-viol', '3', '--samples', '24', '--seed', str(seed)] + ENGINE_DEFAULTS
        for k, v in params.items(): cmd += ['--param', '%s=%d' % (k, v)]
        l = os.path.join(out, 'log')
        p = sh(cmd, l); rc = p.wait()
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        if rc != 0 or not os.path.exists(out + '/result.json'): raise NoVerdict('engine exited with %s\n%s' % (rc, open(l, errors='replace').read()[-2000:]))
        r = json.load(open(out + '/result.json'))
        rd = lambda f: [json.loads(x) for x in open(os.path.join(out, f), errors='replace')] if os.path.exists(os.path.join(out, f)) else []
        reach = set(x.strip() for x in open(out + '/reach.txt')) if os.path.exists(out + '/reach.txt') else set()
        for k, f in dict(states='states', transitions='forks', paths='paths', instructions='instructions', solver_queries='queries', solver_calls='solver_calls', sat='sat', unsat='unsat', unknown='unknown', solver_s='solver_s', assertions='asserts', assertions_with_symbolic_condition='asserts_symbolic').items(): agg[k] += r[f]
        for k, (c, f) in r['functions'].items():
            d = re.sub(r'::h[0-9a-f]{16}$', '', r['demangled'].get(k, k))
            if fn_kind(d): x = funcs.setdefault(d, [0, 0]); x[0] += c; x[1] += f
        inc = open(out + '/incomplete.txt').read().split('\n') if os.path.exists(out + '/incomplete.txt') else []
        inc = sorted(set(x for x in inc if x))
        if not r['complete']: complete = False
        per.append(dict(harness=h['name'] + h.get('tag', ''), bounds=params, what=h.get('what', ''), complete=r['complete'], not_explored=inc[:5], paths=r['paths'], states=r['states'], assumed_out=r['assumed_out'], solver_calls=r['solver_calls'], solver_s=r['solver_s'], wall_s=r['wall_s'], engine_errors=r['errors'], reached=sorted(reach)))
        # violations: replay the model natively
        seen = set()
        for i, v in enumerate(rd('violations.jsonl')):
            tp = os.path.join(rep_dir, '%s-%s-%d.tape' % (pid, h['name'] + h.get('tag', ''), i))
            head = '# property %s harness %s\n# %s: %s\n# %s\n# replay: VF_REPLAY=<this file> %s %s %s\n' % (pid, h['name'], v['kind'], v['msg'], v.get('stack', '')[:400].replace('\n', ' '), ' '.join('VF_PARAM_%s=%d' % x for x in params.items()), b.bin, h['name'])
            open(tp, 'w').write(tape_text(v['syms'], head))
            res = b.replay(b.native(), h['name'], tp, params); how = 'real'
            if not failed(res[0]) :
                res = b.replay(b.native_model(), h['name'], tp, params); how = 'modelled compression'
            if not failed(res[0]) and h.get('threads'):
                # the failure needs a schedule: try many native schedules; the recorded one stands otherwise
                for j in range(1, 81):
                    res = b.replay(b.native(), h['name'], tp, params, 10, j); how = 'real, schedule perturbation %d' % j
                    if failed(res[0]): break
                else:
                    if v.get('schedule', any(x[0] == 'sched' for x in v['syms'])): res = (77, 'not reached by 80 native runs; the schedule is recorded in the tape (sched lines)', ''); how = 'recorded schedule, executed symbolically only'
            if not failed(res[0]):
                problems.append('%s: counterexample does not reproduce natively (exit %s): %s %s; tape %s' % (h['name'], res[0], v['kind'], v['msg'], tp)); continue
            txt = (res[1] + res[2])[-1500:]
            open(tp, 'a').write('# native replay (%s): exit %s\n' % (how, res[0]) + ''.join('#   %s\n' % x for x in txt.split('\n')))
            kf = [k for k in known_findings() if k[0] == pid and k[1] == h['name'] and re.search(k[2], v['msg'] + ' ' + txt)]
            if kf: known.append(kf[0][3])
            else: viol.append((tp, v['msg'], h['name'], how))
        if viol: break
        # engine errors: paths that could not be executed symbolically; run their inputs natively
        errs = rd('errors.jsonl')
        for i, v in enumerate(errs[:20]):
            tp = os.path.join(out, 'err%d.tape' % i); open(tp, 'w').write(tape_text(v['syms']))
            notes.append('%s: path not executed symbolically: %s' % (h['name'], v['msg']))
        if r['errors'] and r['errors'] * 2 > r['paths'] + r['errors']: problems.append('%s: most paths could not be executed: %s' % (h['name'], errs[0]['msg'] if errs else '?'))
        miss = [x for x in h.get('reach', []) if x not in reach]
        if miss: problems.append('%s: vacuous, never reached: %s' % (h['name'], ', '.join(miss)))
        # validation of the encoding: sampled paths must behave identically natively
        sm = rd('samples.jsonl'); n = 0
        binary = b.native_model() if h.get('modelled') else b.native()
        for i, s in enumerate(sm[-h.get('validate', 12):]):
            tp = os.path.join(out, 'sample%d.tape' % i); open(tp, 'w').write(tape_text(s['syms']))
            rc, o, e = b.replay(binary, h['name'], tp, params)
            obs = [int(x[4:]) for x in o.split('\n') if x.startswith('OBS ')]
            if rc == 0 and obs == s['obs']: n += 1
            elif rc != 0 and failed(rc):
                # the symbolic run of this path passed but the real code fails on its inputs
                rt = os.path.join(rep_dir, '%s-%s-native%d.tape' % (pid, h['name'] + h.get('tag', ''), i)); open(rt, 'w').write(tape_text(s['syms'], '# found by native replay of a symbolic path (params %s)\n' % params) + ''.join('# %s\n' % x for x in (o + e)[-1500:].split('\n')))
                # the real code (with the real compression library) fails: report it like any other replayed failure
                kf = [k for k in known_findings() if k[0] == pid and k[1] == h['name'] and re.search(k[2], o + e)]
                if kf: known.append(kf[0][3])
                else: viol.append((rt, 'native replay of an explored path fails', h['name'], 'real'))
            else: problems.append('%s: native run of path differs (exit %s, %s instead of %s) %s' % (h['name'], rc, obs[:8], s['obs'][:8], tp))
        agg['model_validated'] += n
        for s in sm[-2:]: samples.append(dict(harness=h['name'], inputs=' '.join('%s=%d' % (x[0], x[1]) for x in s['syms'])[:600], observed=s['obs'][:12], instructions=s['steps']))
    try: b.native()
    except NoVerdict as e:
        if not viol: problems.append(str(e))
    top = sorted(funcs.items(), key=lambda x: -x[1][1])
    cov = dict(states=agg['states'], transitions=agg['transitions'], traces_validated_against_impl=agg['model_validated'], samples=samples[:6], exhaustive=complete and not viol,
        technique='symbolic execution of the LLVM bitcode of the real code, branch feasibility and assertions decided by z3 for all values within the bounds',
        paths_completed=agg['paths'], guest_instructions=agg['instructions'], solver=dict(queries=agg['solver_queries'], discharged_by_z3=agg['solver_calls'], sat=agg['sat'], unsat=agg['unsat'], unknown=agg['unknown'], seconds=round(agg['solver_s'], 3)),
        assertions_checked=agg['assertions'], assertions_left_to_the_solver=agg['assertions_with_symbolic_condition'],
        functions_encoded=len(funcs), functions=[dict(name=k[:160], calls=v[0], symbolic_forks=v[1]) for k, v in top[:40]],
        bounds=spec['bounds'], harnesses=per, build_s=round(t_build, 1), notes=notes[:20])
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=spec.get('assumptions', []) + ASSUME, wall_s=round(time.time() - t0, 1), violations=len(viol))
    json.dump(ev, open(os.path.join(ev_dir, pid + '.json'), 'w'), indent=1)
    for k in sorted(set(known)): print('KNOWN-FINDING: property=%s %s' % (pid, k))
    for x in per: print('%s %s: %d paths, %s, %d solver calls, %.1f s solver, %.1f s' % (pid, x['harness'], x['paths'], 'complete' if x['complete'] else 'incomplete (%s)' % '; '.join(x['not_explored'])[:200], x['solver_calls'], x['solver_s'], x['wall_s']))
    if viol:
        for tp, msg, hn, how in viol: print('violated (%s, replay: %s): %s' % (hn, how, msg))
        print('VIOLATION property=%s replay=%s' % (pid, viol[0][0])); return 1
    if problems:
        for x in problems: print('NO VERDICT: ' + x)
        return 2
    print('%s held on everything explored (%.0f s)' % (pid, time.time() - t0)); return 0
ASSUME = [
    'zstd is replaced by an identity codec that honours the stream contract (models/env.c); sampled paths are re-run natively with the real library',
    'threads (C30, C31 only) are interleaved at blocking and atomic operations with a bounded number of preemptions, all other properties are decided for one thread; allocation never fails; Rust 1.70 / LLVM code generation and the symbolic executor in /verif/engine are trusted (cross-checked by native replay of sampled paths)',
]
def main():
    a = sys.argv[1:]; pid = a[0]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if '--harness' in a: only = a[a.index('--harness') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try: rc = run(pid, tier, seed, only)
    except NoVerdict as e: print('NO VERDICT: %s' % e); rc = 2
    sys.exit(rc)
if __name__ == '__main__': main()
