#!/usr/bin/env python3
"""check.py <property>: decide one property of /repo's working tree (see DESIGN.md).

Runs the Kani contract harnesses (harness/), the arithmetic verifier (arith/, lir.py) and the
native cross-check (native/) that belong to the property, all built from /repo now.
Exit 0: held. Exit 1 + VIOLATION line: broken. Anything else: the check could not decide."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
try: SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError: SEED = 1
THOROUGH = TIER == 'thorough'
VALUES = ['nec', 'nec_enc', 'rc5', 'rc5_enc', 'rc6', 'sbp', 'denon', 'poll', 'iter', 'sender']
DEADLINE = time.time() + (820 if not THOROUGH else 6 * 3600)

sys.path.insert(0, V)
from props import PROPS, TRUSTED  # what belongs to which property

# hook value that a harness module needs
NEEDS = [('d_nec::', 'nec'), ('d_sbp::', 'sbp'), ('d_denon::', 'denon'), ('d_rc5::', 'rc5'), ('d_rc6::', 'rc6'),
         ('recv::hooked_iter::', 'iter'), ('recv::hooked::', 'poll'), ('send::step::', 'sender'),
         ('nec_ticks::', 'nec_enc'), ('rc5_ticks::', 'rc5_enc')]
def need(name):
    return next((v for k, v in NEEDS if k in name), None)
def hooked_state(name):
    """Does the harness start from a state set through a hook?"""
    return need(name) in ('nec', 'sbp', 'denon', 'rc5', 'rc6', 'iter', 'poll', 'sender')
def soft(name):
    """A link between proofs rather than a property: losing it is no violation"""
    return 'ticks_' in name or 'data_rc6' in name

def left(): return max(5, DEADLINE - time.time())

class Run:
    def __init__(s, prop):
        s.prop, s.cfg = prop, PROPS[prop]
        s.dir = tempfile.mkdtemp(prefix='run-', dir=s.mk(os.path.join(V, 'target')))
        s.values = list(VALUES)
        s.notes, s.violations, s.undecided = [], [], []
        s.low = False
        s.ev = dict(harnesses=[], arithmetic=[], search=None)
    @staticmethod
    def mk(d):
        os.makedirs(d, exist_ok=True); return d

    def env(s, values=None, extra=''):
        f = '--cfg infrared_verif' + ''.join(' --cfg infrared_verif="%s"' % v for v in (s.values if values is None else values))
        if s.low: f += ' --cfg lowclk'
        e = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTFLAGS=(f + ' ' + extra).strip())
        e.pop('CARGO_TARGET_DIR', None); e.pop('RUSTUP_TOOLCHAIN', None)
        return e
    def sh(s, cmd, cwd, env, timeout, log=None):
        """Run a command in its own process group; kill the group on timeout"""
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                             errors='replace', start_new_session=True)
        try: out, _ = p.communicate(timeout=max(5, timeout)); rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9); out, _ = p.communicate(); rc = 124
        if log: open(os.path.join(s.dir, log), 'w').write(out)
        return rc, out

    # ------------------------------------------------------------------ native
    def build_native(s):
        t = os.path.join(s.dir, 'native')
        cmd = ['cargo', 'build', '--offline', '--locked', '--target-dir', t]
        rc, out = s.sh(cmd, V + '/native', s.env(), 600)
        if rc:
            # an encoder whose constants cannot be computed at a clock the properties speak of?
            bad = [b for b in re.findall(r'^error\[E0080\]:.*?(?=^error|\Z)', out, re.M | re.S) if '/repo/src' in b and 'Encoder' in b]
            if bad:
                s.low = True
                s.notes.append('the encoders do not compile for clocks above 1 MHz: left out')
                rc, out = s.sh(cmd, V + '/native', s.env(), 600)
                if s.prop == 'C10' and not rc:
                    s.violations.append(dict(by='compiler', harness='search::c10', hooked=False, reproduced=True, output=bad[0][:3000],
                        fails=[dict(what='C10: a command can be encoded at every clock: ' + bad[0].splitlines()[0], file='', line=None, kind='contract')]))
        if rc:
            # which hooks no longer fit the code?
            def ok(v):
                r, _ = s.sh(['cargo', 'check', '--offline', '--locked', '--target-dir', os.path.join(s.dir, 'hk-' + v)], V + '/harness', s.env([v]), 300)
                return v, r == 0
            with ThreadPoolExecutor(4) as ex: s.values = [v for v, good in ex.map(ok, VALUES) if good]
            for v in VALUES:
                if v not in s.values: s.notes.append('hook "%s" does not compile against this tree: its harnesses were left out' % v)
            rc, out = s.sh(cmd, V + '/native', s.env(), 600)
            if rc:
                print(out[-3000:]); print('the verification crates do not compile against /repo'); sys.exit(2)
        s.bin = os.path.join(t, 'debug')
        # which hooks no longer mean what the contracts take them to mean?
        rc, out = s.sh([os.path.join(s.bin, 'maps')], s.dir, s.env(), 60)
        for v, how in re.findall(r'^(\w+) (\w+)$', out, re.M):
            if how == 'off' and v in s.values:
                s.values.remove(v)
                s.notes.append('hook "%s": this tree keeps its state in another way: its harnesses were left out' % v)

    # ------------------------------------------------------------------ kani
    def kani(s, pats, unwind=None, exact=False, tag='k'):
        js = os.path.join(s.dir, tag + '.json')
        cmd = ['cargo', 'kani', '--target-dir', os.path.join(s.dir, tag), '-j', str(s.cfg.get('jobs', 8)), '--output-format', 'terse',
               '-Z', 'unstable-options', '--export-json', js, '--harness-timeout', '%ds' % (600 if not THOROUGH else 5400)]
        if exact: cmd.append('--exact')
        if unwind: cmd += ['--unwind', str(unwind)]
        for p in pats: cmd += ['--harness', p]
        rc, out = s.sh(cmd, V + '/harness', s.env(), left(), tag + '.log')
        if not os.path.exists(js): return None, out
        d = json.load(open(js))
        stats = {c.get('harness_id'): c.get('cbmc_stats') or {} for c in d.get('cbmc', [])}
        res = []
        for r in d['verification_results']['results']:
            h = dict(name=r['harness_id'], ok=r['status'] == 'Success', s=int(r['duration_ms']) / 1000, fails=[], covers={}, n=0, good=0, unreachable=0,
                     unwinding=False, vccs=stats.get(r['harness_id'], {}).get('vccs_generated'), solver_s=stats.get(r['harness_id'], {}).get('runtime_solver_s'))
            for c in r['checks']:
                st, de, loc = c['status'].lower(), c['description'].strip('"'), c.get('location') or {}
                if c.get('category') == 'cover':
                    k = (de, loc.get('line')); h['covers'][k] = h['covers'].get(k, False) or st == 'satisfied'; continue
                if st == 'unreachable': h['unreachable'] += 1; continue
                h['n'] += 1
                if st == 'success': h['good'] += 1
                elif st == 'failure':
                    if 'unwinding assertion' in de: h['unwinding'] = True
                    else: h['fails'].append(dict(what=de, file=loc.get('file', ''), line=loc.get('line'), category=c.get('category', '')))
            res.append(h)
        return res, out

    def kani_all(s):
        pats = s.cfg.get('kani', []) + (s.cfg.get('kani_thorough', []) if THOROUGH else [])
        pats = [p for p in pats if need(p) is None or need(p) in s.values]
        if not pats: return
        res, out = s.kani(pats)
        if res is None:
            s.undecided.append('kani gave no result: ' + out[-300:].replace('\n', ' ')); s.kani_out = out; return
        redo = [h for h in res if not h['ok'] and (h['unwinding'] or not h['fails'])]
        for u in (40, 150):
            again = [h for h in redo if h['unwinding']]
            if not again: break
            r2, _ = s.kani([h['name'] for h in again], unwind=u, exact=True, tag='k%d' % u)
            if r2 is None: break
            byname = {h['name']: h for h in r2}
            res = [byname.get(h['name'], h) for h in res]
            redo = [h for h in res if not h['ok'] and (h['unwinding'] or not h['fails'])]
        for h in res:
            fails = h.pop('fails'); cov = h.pop('covers')
            bad = [c for c, ok in cov.items() if not ok]
            h['covers'] = len(cov); h['uncovered'] = [c[0] for c in bad]
            s.ev['harnesses'].append(h)
            if h['ok']:
                if bad: s.undecided.append('%s: not reached: %s' % (h['name'], ', '.join(c[0] for c in bad)))
                if not h['n']: s.undecided.append('%s: no obligations' % h['name'])
                continue
            rel = []
            for f in fails:
                m = re.match(r'((?:C\d\d )*C\d\d): ', f['what'])
                if 'unsupported' in f['category'] or 'not currently supported' in f['what']: continue
                lib = not f['file'].startswith('src/')  # harness files are relative
                if m:
                    if s.prop in m.group(1).split(): rel.append(dict(f, kind='contract'))
                elif soft(h['name']): s.notes.append('%s: %s' % (h['name'], f['what']))
                elif lib: rel.append(dict(f, kind='panic'))
                else: rel.append(dict(f, kind='contract'))
            if rel: s.violations.append(dict(by='kani', harness=h['name'], fails=rel, hooked=hooked_state(h['name'])))
            elif not fails: s.undecided.append('%s: no verdict (%s)' % (h['name'], 'unwinding bound' if h['unwinding'] else 'timeout or tool error'))

    def playback(s, v):
        """The verifier's counterexample for a failed harness, run on the real code"""
        rc, out = s.sh(['cargo', 'kani', '--target-dir', os.path.join(s.dir, 'k'), '--harness', v['harness'], '--exact', '-Z', 'concrete-playback',
                        '--concrete-playback=print'], V + '/harness', s.env(), min(left(), 400))
        v['output'] = '\n'.join(l for l in out.splitlines() if 'FAILURE' in l or 'Failed Checks' in l or 'VERIFICATION' in l)[-4000:]
        v['inputs'] = []
        want = [f['what'] for f in v['fails']]
        blocks = re.findall(r'/// Check for ([^\n]*)\n.*?concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', out, re.S)
        for head, body in blocks:
            if head.startswith('cover'): continue
            vals = [x.strip() for x in re.findall(r'vec!\[([\d, ]*)\]', body)]
            f = os.path.join(s.dir, 'vals.txt'); open(f, 'w').write('\n'.join(vals) + '\n')
            rc, o = s.sh([os.path.join(s.bin, 'replay'), v['harness'], f], s.dir, s.env(), 120)
            hit = rc != 0 and rc != 3 and (any(w in o for w in want) or any(f['kind'] == 'panic' for f in v['fails']))
            v['inputs'].append(dict(check=head, values=vals, reproduced=hit, native_output=o[-1500:]))
            if hit: v['reproduced'] = True; return

    # ------------------------------------------------------------------ arithmetic
    def arith(s):
        names = s.cfg.get('arith', []) + (s.cfg.get('arith_thorough', []) if THOROUGH else [])
        names = [n for n in names if not n.startswith('t_') or (('rc5' if 'rc5' in n else 'nec') + '_enc') in s.values or 'rc6' in n]
        if not names: return
        t = os.path.join(s.dir, 'arith')
        vals = [v for v in s.values if v in ('nec_enc', 'rc5_enc')]
        e = s.env(vals, '-C no-vectorize-loops -C no-vectorize-slp -Zcross-crate-inline-threshold=always -C llvm-args=-inline-threshold=100000')
        rc, out = s.sh(['cargo', '+nightly', 'rustc', '--offline', '--locked', '--lib', '--release', '--target-dir', t, '--', '--emit=llvm-ir'], V + '/arith', e, 600)
        lls = [os.path.join(d, f) for d, _, fs in os.walk(t) for f in fs if f.startswith('arith') and f.endswith('.ll')]
        if rc or not lls: s.undecided.append('no LLVM IR: ' + out[-300:]); return
        ir = max(lls, key=os.path.getmtime); js = os.path.join(s.dir, 'arith.json')
        rc, out = s.sh(['python3-vt', V + '/arith_check.py', ir, js] + (['--panics'] if s.prop == 'C01' else []) + names, V, s.env(), left(), 'arith.log')
        if not os.path.exists(js): s.undecided.append('arithmetic verifier: ' + out[-300:]); return
        for n, r in json.load(open(js)).items():
            s.ev['arithmetic'].append(dict(name=n, **r))
            if r['status'] == 'failed':
                s.violations.append(dict(by='lir', harness=n, hooked=False, fails=[dict(what=r['what'], file='', line=None, kind='contract')], model=r.get('model')))
            elif r['status'] != 'proved': s.undecided.append('%s: %s' % (n, r.get('reason')))
    def arith_replay(s, v):
        """Run the wrapper natively on the solver's values and judge the result"""
        m = v.get('model') or {}
        t = os.path.join(s.dir, 'an')
        rc, out = s.sh(['cargo', 'build', '--offline', '--locked', '--target-dir', t], V + '/arith', s.env([x for x in s.values if x in ('nec_enc', 'rc5_enc')]), 300)
        if rc: return
        args = [str(m[k]) for k in ('f', 'd') if k in m]
        rc, out = s.sh([t + '/debug/arith', v['harness']] + args, s.dir, s.env(), 60)
        v['inputs'] = [dict(values=m, native_output=out.strip()[-1000:])]
        if rc: v['reproduced'] = True; return
        r2, o2 = s.sh(['python3-vt', V + '/arith_check.py', '--judge', v['harness'], json.dumps(m), out.strip()], V, s.env(), 60)
        v['inputs'][0]['judged'] = o2.strip()
        if r2 == 1: v['reproduced'] = True

    # ------------------------------------------------------------------ search
    def search(s, ms):
        if not s.cfg.get('search'): return None
        _, reg = s.sh([os.path.join(s.bin, 'replay')], s.dir, s.env(), 60)
        names = [n for n in reg.split() if any(p in n for p in s.cfg.get('kani', [])) and need(n) is None and not soft(n)]
        rc, out = s.sh([os.path.join(s.bin, 'search'), s.prop, str(SEED), str(ms)] + ([','.join(names)] if names else []), s.dir, s.env(), ms / 1000 * 3 + 120)
        stats = next((json.loads(l[6:]) for l in out.splitlines() if l.startswith('STATS ')), {})
        if rc == 1: return dict(failed=True, text=out[-6000:], stats=stats)
        if rc: s.notes.append('cross-check ended with %d: %s' % (rc, out[-300:])); return None
        return dict(failed=False, stats=stats)

def main():
    prop = sys.argv[1]
    t0 = time.time(); r = Run(prop)
    try:
        code = decide(r, t0)
    finally:
        shutil.rmtree(r.dir, ignore_errors=True)
    sys.exit(code)

def decide(r, t0):
    prop = r.prop
    r.build_native()
    with ThreadPoolExecutor(3) as ex:
        jobs = [ex.submit(r.kani_all), ex.submit(r.arith)]
        sr = r.search(r.cfg.get('search_ms', 4000) * (20 if THOROUGH else 1))
        for j in jobs: j.result()
    degraded = bool(r.undecided) or any('hook' in n for n in r.notes)
    if not (sr and sr['failed']) and (r.violations or degraded) and r.cfg.get('search'):
        s2 = r.search(r.cfg.get('search_more_ms', 40000))
        sr = s2 or sr
    r.ev['search'] = sr and dict(sr['stats'], failed=sr['failed'])
    verdict = None
    lines = []
    # those that start from a new object first: their values are an input
    tried = 0
    for v in sorted(r.violations, key=lambda v: v['hooked'])[:6]:
        if sr and sr['failed']: break
        if v['by'] == 'compiler': continue
        if tried and v['hooked'] or tried > 1 and time.time() - t0 > 450: break
        tried += 1
        if v['by'] == 'kani': r.playback(v)
        else: r.arith_replay(v)
        if v.get('reproduced') and not v['hooked']: break
    if sr and sr['failed']:
        verdict = ('input', 'A concrete input or history on which the real code breaks the property:\n' + sr['text'])
    else:
        good = [v for v in r.violations if v.get('reproduced') and not v['hooked']]
        # a panic in a state that was set by a hook only concerns C01
        obl = [v for v in r.violations if not (v['hooked'] and prop != 'C01' and all(f['kind'] == 'panic' for f in v['fails']))]
        if good: verdict = ('input', "The verifier's counterexample, replayed on the real code:")
        elif obl: verdict = ('obligation', 'Failed obligations; no failing input found.')
        for v in r.violations:
            if v not in obl: r.notes.append('panic in %s (belongs to C01)' % v['harness'])
    code = 0
    if verdict:
        code = 1
        d = r.mk(os.path.join(V, 'replays')); path = os.path.join(d, '%s.txt' % prop)
        with open(path, 'w') as f:
            f.write('property %s\n%s\n' % (prop, verdict[1]))
            for v in r.violations:
                f.write('\nfailed obligations of %s (%s)\n' % (v['harness'], v['by']))
                for x in v['fails']: f.write('  %s  [%s:%s]\n' % (x['what'], x['file'], x['line']))
                if v.get('model'): f.write('  values: %s\n' % v['model'])
                for i in v.get('inputs', []): f.write('  counterexample: %s\n' % json.dumps(i))
                if v.get('output'): f.write('  verifier: %s\n' % v['output'].replace('\n', '\n    '))
            f.write('\nTo replay values of a Kani harness: put them in a file, one line per value, and run\n  native: replay <harness> <file>  (see native/src/bin/replay.rs)\n')
        print(open(path).read()[:3000])
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if verdict[0] == 'input' else ' no-failing-input-found'))
    evidence(r, t0, code)
    for n in r.notes + r.undecided: print('note:', n)
    hs, ar = r.ev['harnesses'], r.ev['arithmetic']
    if not code and not hs and not ar and not (sr and not sr['failed']):
        print('nothing could be checked'); return 2
    print('%s %s: %d harnesses, %d arithmetic contracts, %.0f s' % (prop, 'violated' if code else 'held', len(hs), len(ar), time.time() - t0))
    return code

def evidence(r, t0, code):
    hs, ar = r.ev['harnesses'], r.ev['arithmetic']
    ob = sum(h['n'] for h in hs) + sum(a.get('obligations') or 0 for a in ar)
    di = sum(h['good'] for h in hs) + sum(a.get('discharged') or 0 for a in ar)
    cov = dict(obligations=ob, discharged=di,
        checker_cmd='cargo kani (CBMC, one run per harness) on harness/; lir.py (z3) on the LLVM IR of arith/',
        trusted_base=TRUSTED + r.cfg.get('trusted', []),
        functions_under_contract=r.cfg.get('functions', []),
        kani=dict(harnesses=len(hs), obligations=sum(h['n'] for h in hs), discharged=sum(h['good'] for h in hs), unreachable_checks=sum(h['unreachable'] for h in hs),
                  covers_required=sum(h['covers'] for h in hs), covers_missed=sum(len(h['uncovered']) for h in hs),
                  verification_s=round(sum(h['s'] for h in hs), 1), solver_s=round(sum(float(h['solver_s'] or 0) for h in hs), 1),
                  per_harness=[dict(name=h['name'], ok=h['ok'], obligations=h['n'], discharged=h['good'], vccs=h['vccs'], seconds=h['s']) for h in hs],
                  bounded=[h['name'] for h in hs if any(b in h['name'] for b in r.cfg.get('bounded', ['\0']))]),
        arithmetic=dict(contracts=len(ar), obligations=sum(a.get('obligations') or 0 for a in ar), discharged=sum(a.get('discharged') or 0 for a in ar),
                        solver_s=round(sum(a.get('solver_s') or 0 for a in ar), 1), per_function=[dict(name=a['name'], status=a['status'], obligations=a.get('obligations'), paths=a.get('paths')) for a in ar]),
        native_cross_check=r.ev['search'], undecided=r.undecided, notes=r.notes, hooks_in_use=r.values)
    e = dict(property=r.prop, tier=TIER, seed=SEED, level='proof', coverage=cov, assumptions=r.cfg.get('assumptions', []),
             wall_s=round(time.time() - t0, 1), violations=1 if code else 0)
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(e, open(V + '/evidence/%s.json' % r.prop, 'w'), indent=1)

if __name__ == '__main__': main()
