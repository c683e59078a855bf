#!/usr/bin/env python3
"""Decides one property:  run.py <property> <quick|thorough>     (run.py setup  prebuilds everything)

Stages, run side by side, all on /repo's current working tree:
  kani    contract harnesses over the real crates, every input symbolic (harness/src/pNN.rs)
  verus   functions extracted from the current source, proved against the contracts in verus/pNN.py
  native  the same contracts executed on the real code with concrete inputs, to find (or replay) a failing input

Exit 1 with a VIOLATION line when a contract fails; a tool that gives no answer (timeout, unsupported construct, an
anchor that is gone) is never an alarm: its obligations are reported as not discharged and the native stage stands in.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time, importlib.util

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
BUILD = V + '/build'
sys.path.insert(0, V)
from checks import CHECKS  # noqa: E402

T0 = time.time()


def env(**kw):
    e = {k: v for k, v in os.environ.items() if k not in ('CARGO_TARGET_DIR', 'RUSTUP_TOOLCHAIN', 'RUSTFLAGS', 'CARGO_BUILD_TARGET')}
    e['CARGO_NET_OFFLINE'] = 'true'
    e.update(kw)
    return e


def sh(cmd, timeout, cwd=V, **kw):
    """Runs cmd; returns (rc, output); rc None on timeout. The whole process group ends with it."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    buf = []

    def rd():
        for b in iter(lambda: p.stdout.read1(1 << 16), b''):
            buf.append(b)
    t = threading.Thread(target=rd, daemon=True)
    t.start()
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        rc = None
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    t.join(5)
    return rc, b''.join(buf).decode('utf-8', 'replace')


def source_hash():
    h = hashlib.sha256()
    for top in ('src', 'Cargo.toml', 'Cargo.lock'):
        top = os.path.join(REPO, top)
        fs = [top] if os.path.isfile(top) else sorted(os.path.join(d, f) for d, _, ff in os.walk(top) for f in ff)
        for f in fs:
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def fresh(target):
    """cargo goes by modification times; when the text of /repo changed since the last build here, forget the fingerprints."""
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, 'repo.sha256')
    h = source_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ''
    if old and old != h:
        for d, dirs, _ in os.walk(target):
            if os.path.basename(d) == '.fingerprint':
                for x in list(dirs):
                    if x.startswith(('ringhopper', 'rhverify', 'invader')):
                        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                dirs[:] = []
    with open(stamp, 'w') as f:
        f.write(h)


# ---------------------------------------------------------------- native

class Native:
    def __init__(self, prop, features):
        self.prop, self.features = prop, features
        self.target = BUILD + '/native'
        self.bin = self.target + '/debug/rhverify'
        self.error = None
        self.fails, self.done, self.list = [], [], []

    def build(self, timeout=600):
        fresh(self.target)
        rc, out = sh(['cargo', 'build', '--offline', '--quiet', '--bin', 'rhverify', '--features', ','.join(self.features)], timeout,
                     cwd=V + '/harness', CARGO_TARGET_DIR=self.target, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
        if rc != 0:
            self.error = ('native build failed (no answer from this stage)\n' if rc is not None else 'native build timed out\n') + out[-6000:]
            return False
        # keep this property's binary: another property's build replaces the shared one
        mine = f'{self.target}/rhverify-{self.prop}'
        shutil.copy2(self.bin, mine)
        self.bin = mine
        return True

    def run(self, *args, timeout=900, **kw):
        return sh([self.bin, self.prop, *map(str, args)], timeout, **kw)

    def search(self, seed, mult, secs):
        rc, out = self.run('list', timeout=60)
        self.list = [json.loads(x) for x in out.splitlines() if x.startswith('{')]
        skip = None
        rc, out = self.run('search', seed, mult, secs, timeout=secs * 4 + 200)
        ended = self.take(out)
        if not ended and not self.fails:
            # the process died (abort, stack overflow, signal): find the input on one thread
            trace = f'{BUILD}/trace-{self.prop}'
            rc2, out2 = self.run('search', seed, mult, secs, timeout=secs * 10 + 300, RH_TRACE=trace)
            ended = self.take(out2)
            if not ended and not self.fails:
                if rc2 is not None and rc2 < 0 and os.path.exists(trace):
                    name, it = open(trace).read().split()
                    self.fails.append({'fail': name, 'iter': int(it), 'message': f'the process was killed by signal {-rc2}', 'location': '', 'draws': []})
                else:
                    self.error = f'native search gave no answer (exit {rc}, then {rc2}): ' + out2[-500:]
        del skip

    def take(self, out):
        ended = False
        for x in out.splitlines():
            if not x.startswith('{'):
                continue
            try:
                x = json.loads(x)
            except ValueError:
                continue
            if 'fail' in x:
                self.fails.append(x)
            elif 'done' in x:
                self.done.append(x)
            elif 'end' in x:
                ended = True
        return ended


# ---------------------------------------------------------------- kani

NO_ANSWER = re.compile(r'unwinding assertion|recursion unwinding|not currently supported|unsupported|missing function|call to foreign|reached unimplemented|inline assembly', re.I)


class Kani:
    def __init__(self, prop, features, timeout, total):
        self.prop, self.features, self.timeout, self.total = prop, features, timeout, total
        self.harnesses, self.failed, self.error, self.solver_s, self.cmd, self.covers = [], [], None, 0.0, '', [0, 0]
        self.out, self.stub = '', []

    def base(self, features, *extra):
        return ['cargo', 'kani', '--lib', '--features', ','.join(features), '-Z', 'stubbing', '-Z', 'unstable-options', '--target-dir', BUILD + '/kani', *extra]

    def run(self, jobs=8):
        fresh(BUILD + '/kani')
        js = f'{BUILD}/kani-{self.prop}.json'
        if os.path.exists(js):
            os.remove(js)
        cmd = self.base(self.features, '-j', str(jobs), '--output-format', 'terse', '--export-json', js, '--harness-timeout', f'{self.timeout}s')
        self.cmd = ' '.join(cmd)
        rc, self.out = sh(cmd, self.total, cwd=V + '/harness')
        self.collect(js, rc)

    def collect(self, js, rc):
        try:
            d = json.load(open(js))
        except (OSError, ValueError):
            m = re.search(r'^error.*?(?=\n\n|\Z)', self.out, re.S | re.M)
            self.error = f'kani gave no answer (exit {rc}): ' + (m.group(0) if m else self.out[-1500:])[:3000]
            return
        st = {x['harness_id']: x for x in d.get('cbmc') or [] if x}
        for r in d['verification_results']['results']:
            checks = r.get('checks') or []
            real = [c for c in checks if c.get('category') != 'cover' and 'cover' not in str(c.get('category'))]
            bad = [c for c in real if c['status'] in ('Failure', 'FAILURE', 'Failed')]
            cov = [c for c in checks if c not in real]
            ok = [c for c in real if c['status'] in ('Success', 'Unreachable', 'SUCCESS', 'UNREACHABLE')]
            name = r['harness_id'].split('::')[-1]
            status = r['status']
            answer = status == 'Success' or (bad and not any(NO_ANSWER.search(c.get('description') or '') or c.get('category') in ('unwind', 'recursion', 'unsupported_construct') for c in bad))
            s = (st.get(r['harness_id']) or {}).get('cbmc_stats') or {}
            self.solver_s += s.get('runtime_decision_procedure_s', 0) or 0
            sat = len([c for c in cov if c['status'] in ('Satisfied', 'SATISFIED')])
            self.covers[0] += sat
            self.covers[1] += len(cov)
            h = {'harness': name, 'id': r['harness_id'], 'status': 'verified' if status == 'Success' else 'failed' if answer else 'no answer', 'obligations': len(real),
                 'discharged': len(ok) if status == 'Success' else 0, 'covers': f'{sat}/{len(cov)}', 'ms': r.get('duration_ms'),
                 'bad': [{'function': c['function'], 'description': c['description'], 'at': '{file}:{line}'.format(**c['location']) if c.get('location') else ''} for c in bad][:6]}
            self.harnesses.append(h)
            if h['status'] == 'failed':
                self.failed.append(h)
        if not self.harnesses:
            self.error = 'kani ran no harness'

    def confirm(self, h, left):
        """Re-verifies one failed harness with no callee contract in the way and asks for the counterexample."""
        cmd = self.base(self.features + ['unstub'], '--harness', h['id'], '--exact', '-Z', 'concrete-playback', '--concrete-playback=print', '--harness-timeout', f'{max(30, int(left))}s')
        rc, out = sh(cmd, left + 60, cwd=V + '/harness')
        draws = None
        m = re.search(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', out, re.S)
        if m:
            draws = [[int(x) for x in re.findall(r'\d+', v)] for v in re.findall(r'vec!\[([^\]]*)\]', m.group(1))]
        verdict = re.search(r'VERIFICATION:- (\w+)', out)
        failed = re.findall(r'^Failed Checks: (.*)', out, re.M)
        real = verdict and verdict.group(1) == 'FAILED' and failed and not any(NO_ANSWER.search(x) for x in failed)
        return bool(real), draws, out


# ---------------------------------------------------------------- verus

def load_verus(prop, deep):
    p = f'{V}/verus/{prop}.py'
    if not os.path.exists(p):
        return None
    import extract
    s = importlib.util.spec_from_file_location('verus_' + prop, p)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return extract.Verus(prop, m, REPO, BUILD, sh, deep, fresh)


# ---------------------------------------------------------------- main

def write_replay(prop, tag, data):
    d = f'{BUILD}/replay'
    os.makedirs(d, exist_ok=True)
    p = f'{d}/{prop}-{tag}.json'
    with open(p, 'w') as f:
        json.dump(data, f, indent=1)
    return p


def known(prop):
    try:
        return [k for k in json.load(open(V + '/known_findings.json')).get('findings', []) if k['property'] == prop]
    except OSError:
        return []


def main():
    if sys.argv[1] == 'setup':
        return setup()
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = CHECKS[pid]
    prop = pid.lower()
    deep = tier == 'thorough'
    features = [prop] + (['deep'] if deep else [])
    native = Native(prop, features)
    kani = Kani(prop, features, 1500 if deep else c.get('kani_timeout', 150), 20000 if deep else 560) if c.get('kani') else None
    verus = load_verus(prop, deep)
    threads = []

    def bg(f):
        def g():
            try:
                f()
            except Exception as e:  # a broken stage gives no answer
                stage_errors.append(f'{f}: {e!r}')
        t = threading.Thread(target=g)
        t.start()
        threads.append(t)
    stage_errors = []
    if verus:
        bg(lambda: verus.run(3000 if deep else c.get('verus_timeout', 120)))
    if kani:
        bg(lambda: kani.run(8))
    if native.build():
        native.search(seed, c.get('deep_mult', 40) if deep else 1, c.get('deep_secs', 600) if deep else c.get('secs', 12))
    for t in threads:
        t.join()

    violations, findings = [], []
    kf = known(pid)

    def is_known(contract, message):
        for k in kf:
            if k['contract'] == contract and re.search(k['match'], message):
                return k
    for f in native.fails:
        k = is_known(f['fail'], f['message'])
        if k:
            findings.append(k)
            continue
        p = write_replay(pid, f['fail'], {'property': pid, 'contract': f['fail'], 'about': next((x['about'] for x in native.list if x['name'] == f['fail']), ''),
                         'failure': f['message'], 'at': f['location'], 'seed': seed, 'iter': f['iter'], 'draws': f['draws'][:2000],
                         'replay': f'{native.bin} {prop} replay-iter {f["fail"]} {seed} {f["iter"]}'})
        violations.append((p, '', f'contract {f["fail"]}: {f["message"]}'))
    if kani and kani.failed:
        seen = {f['fail'] for f in native.fails}
        for h in kani.failed:
            left = 600 - (time.time() - T0) if not deep else 1500
            if h['harness'] in seen or left < 30:
                continue
            real, draws, out = kani.confirm(h, min(left, 300) if not deep else 1500)
            if not real:
                h['status'] = 'no answer'
                h['note'] = 'not confirmed without callee contracts'
                continue
            repro = None
            if draws is not None and not native.error:
                rc, o = native.run('replay-draws', h['harness'], ','.join(bytes(b).hex() for b in draws) or '00', timeout=120)
                repro = o if rc not in (0, None) else None
            msg = '; '.join(f'{b["description"]} [{b["function"]}]' for b in h['bad'][:3])
            k = is_known(h['harness'], msg)
            if k:
                findings.append(k)
                continue
            p = write_replay(pid, h['harness'], {'property': pid, 'contract': h['harness'], 'failed_obligations': h['bad'], 'counterexample_draws': draws,
                             'reproduced_on_real_code': repro, 'verifier_output': out[-8000:],
                             'replay': f'{native.bin} {prop} replay-draws {h["harness"]} {",".join(bytes(b).hex() for b in draws or [])}'})
            violations.append((p, '' if repro else ' no-failing-input-found', f'obligation of {h["harness"]}: {msg}'))
    if verus and verus.failed and not violations:
        for f in verus.failed:
            p = write_replay(pid, 'verus-' + f['name'], {'property': pid, 'failed_obligation': f['name'], 'verifier_output': f['output'][-8000:], 'replay': verus.cmd})
            violations.append((p, ' no-failing-input-found', f'obligation of {f["name"]} (verus)'))

    evidence(pid, tier, seed, c, native, kani, verus, violations, findings, stage_errors)
    for k in {json.dumps(k, sort_keys=True) for k in findings}:
        k = json.loads(k)
        print(f'KNOWN-FINDING: property={pid} {k["what"]}')
    notes = [x for x in (native.error, kani and kani.error, verus and verus.error, *stage_errors) if x]
    for n in notes:
        print('note (not an alarm):', n[:1500])
    if kani:
        for h in kani.harnesses:
            if h['status'] == 'no answer':
                print(f'note (not an alarm): no answer for {h["harness"]}; native execution stands in')
    # vacuity guard: a run in which nothing at all was decided is an error of the check, not a pass
    ran = sum(x['held'] for x in native.done)
    proved = sum(h['discharged'] for h in kani.harnesses) if kani else 0
    if not violations and native.error and not ran and not proved and not (verus and verus.verified):
        print('nothing was decided')
        return 2
    print(f'{pid} {tier}: kani {proved} obligations in {len(kani.harnesses) if kani else 0} harnesses, verus {verus.verified if verus else 0}, native {ran} executions, {time.time() - T0:.1f} s')
    for p, tail, msg in violations:
        print(msg)
        print(f'VIOLATION property={pid} replay={p}{tail}')
    return 1 if violations else 0


def evidence(pid, tier, seed, c, native, kani, verus, violations, findings, stage_errors):
    hs = kani.harnesses if kani else []
    kinds = {x['name']: x['kind'] for x in native.list}
    about = {x['name']: x['about'] for x in native.list}
    proofs = [h for h in hs if kinds.get(h['harness']) != 'bounded']
    vo = verus.total if verus else 0
    vd = verus.verified if verus else 0
    cov = {}
    level = c['level']
    if level == 'proof':
        cov['obligations'] = sum(h['obligations'] for h in proofs) + vo
        cov['discharged'] = sum(h['discharged'] for h in proofs) + vd
        cov['checker_cmd'] = ' ; '.join(x for x in ((kani.cmd if kani else ''), (verus.cmd if verus else '')) if x)
        cov['trusted_base'] = c['trusted']
    cov['evaluations'] = sum(x['ran'] for x in native.done)
    cov['distinct_nontrivial'] = sum(x['distinct'] for x in native.done)
    cov['rule'] = 'native execution of the same contracts: seeded inputs, uniform and boundary-biased; an execution counts when the contract accepted its input (every assumption held) and no earlier execution on the same worker drew the same input bytes'
    cov['samples'] = [{'contract': x['done'], 'input_bytes': x['samples'][0][:120]} for x in native.done if x['samples']][:12]
    if level == 'other':
        cov['explanation'] = c['note']
    cov['functions_under_contract'] = [{'contract': x['name'], 'kind': x['kind'], 'ensures': x['about'][:260]} for x in native.list][:90]
    cov['kani'] = [{k: v for k, v in h.items() if k in ('harness', 'status', 'obligations', 'discharged', 'covers', 'ms', 'note')} for h in hs]
    cov['kani_backend'] = 'Kani 0.68.0, CBMC 6.11.0, CaDiCaL' if kani else None
    cov['solver_s'] = round((kani.solver_s if kani else 0) + (verus.solver_s if verus else 0), 3)
    cov['kani_covers_satisfied'] = kani.covers if kani else None
    if verus:
        cov['verus'] = verus.report()
    cov['native'] = [{'contract': x['done'], 'ran': x['ran'], 'held': x['held'], 'covers': x['covers']} for x in native.done]
    cov['bounded'] = [n for n, k in kinds.items() if k == 'bounded']
    cov['executed_only'] = [n for n, k in kinds.items() if k == 'native'] + [n for n, k in kinds.items() if k.startswith('deep') and tier == 'quick']
    cov['no_answer'] = [x[:300] for x in (native.error, kani and kani.error, verus and verus.error, *stage_errors) if x] + [h['harness'] for h in hs if h['status'] == 'no answer']
    cov['known_findings'] = [k['what'] for k in findings]
    e = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': {k: v for k, v in cov.items() if v is not None}, 'assumptions': c['assumptions'],
         'wall_s': round(time.time() - T0, 2), 'violations': len(violations)}
    del about
    os.makedirs(V + '/evidence', exist_ok=True)
    s = json.dumps(e, indent=1)
    if len(s) > 60000:
        e['coverage']['functions_under_contract'] = [x['name'] for x in native.list]
        e['coverage']['native'] = e['coverage']['native'][:40]
        s = json.dumps(e)
    with open(f'{V}/evidence/{pid}.json', 'w') as f:
        f.write(s + '\n')


def setup():
    """Everything the checks reuse: dependency builds for both back ends."""
    rc = 0
    feats = [p.lower() for p in CHECKS]
    n = Native('setup', feats)
    if not n.build(900):
        print(n.error)
        rc = 1
    if os.path.exists(V + '/verus/p01.py'):
        import structs
        fresh(BUILD + '/expand/target')
        try:
            structs.expand(REPO, BUILD, sh, 600)
        except Exception as e:
            print(e)
    kf = [p.lower() for p in CHECKS if CHECKS[p].get('kani')]
    if kf:
        fresh(BUILD + '/kani')
        r, out = sh(['cargo', 'kani', '--lib', '--features', ','.join(kf), '-Z', 'stubbing', '-Z', 'unstable-options', '--target-dir', BUILD + '/kani', '--only-codegen'], 900, cwd=V + '/harness')
        if r != 0:
            print(out[-3000:])
            rc = 1
    return rc


sys.exit(main())
