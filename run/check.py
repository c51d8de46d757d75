#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   |   check.py --setup   |   check.py --replay FILE

Rebuilds the contracts against /repo's working tree, lets the deductive verifier discharge every obligation of the
property, explores the property natively where the verifier cannot reach, rewrites evidence/<id>.json and reports."""
import glob, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, '.build')
sys.path.insert(0, os.path.join(VERIF, 'run'))
import props
NCPU = os.cpu_count() or 4
KFLAGS = ['-Z', 'stubbing', '-Z', 'unstable-options', '--output-format', 'terse', '--no-memory-safety-checks', '--no-assertion-reach-checks', '--no-undefined-function-checks']
T0 = time.time()

def env(tool, gen):
    e = dict(os.environ)
    e.pop('RUSTUP_TOOLCHAIN', None)
    e.update(CARGO_NET_OFFLINE='true', RUSTFLAGS='--cfg nbvm_verif', NBVM_VERIF_DIR=os.path.join(gen, 'hooks'), CARGO_TARGET_DIR=os.path.join(BUILD, tool), CARGO_TERM_COLOR='never')
    return e

def make_gen(name, modules=None):
    gen = os.path.join(BUILD, 'gen-' + name)
    shutil.rmtree(gen, ignore_errors=True)
    os.makedirs(gen)
    for d in ('contracts', 'hooks', name):
        shutil.copytree(os.path.join(VERIF, d), os.path.join(gen, d), ignore=shutil.ignore_patterns('target'))
    return gen

def prune(gen, log):
    """Drops the contract blocks (or single stub attributes) a compile error points at. Returns what was dropped."""
    dropped = []
    errs = re.split(r'\n(?=error|warning)', '\n' + log)
    hits = {}
    for e in errs:
        if not e.startswith('error'): continue
        for f, l in re.findall(r'(?:-->|:::) (\S+?):(\d+)(?::\d+)?', e):
            p = f if os.path.isabs(f) else os.path.join(gen, 'kani', f)
            p = os.path.normpath(p)
            if not os.path.exists(p): p = os.path.normpath(os.path.join(gen, 'native', f))
            if not p.startswith(gen) or not os.path.exists(p): continue
            hits.setdefault(p, set()).add(int(l))
        for name in re.findall(r"(?:failed to (?:resolve|find)|unable to (?:resolve|find)|could not find)[^`]*`([\w:]+)`", e):
            for p in glob.glob(os.path.join(gen, 'contracts', '*.rs')):
                for i, line in enumerate(open(p).read().split('\n'), 1):
                    if 'kani::stub(' in line and name.split('::')[-1] in line: hits.setdefault(p, set()).add(i)
    for p, lines in hits.items():
        src = open(p).read().split('\n')
        kill = set()
        for l in lines:
            if l - 1 >= len(src): continue
            if 'kani::stub(' in src[l - 1] and '// need' not in src[l - 1]:
                kill.add(l - 1); dropped.append('stub ' + re.sub(r'.*stub\(([^,]*),.*', r'\1', src[l - 1]).strip())
                continue
            b = l - 1
            while b >= 0 and '// @begin' not in src[b] and (b == l - 1 or '// @end' not in src[b]): b -= 1
            if b < 0 or '// @begin' not in src[b]: continue
            n = b
            while n < len(src) and '// @end' not in src[n]: n += 1
            if l - 1 > n: continue
            kill.update(range(b, n + 1)); dropped.append(os.path.basename(p) + ':' + src[b].split('@begin')[1].strip())
        open(p, 'w').write('\n'.join('' if i in kill else x for i, x in enumerate(src)))
    return dropped

class Kani:
    def __init__(self, prop, tier):
        self.res, self.dropped, self.fail, self.log = [], [], None, ''
        self.hs = [h for h in prop.get('kani', []) if tier == 'thorough' or not h.get('thorough')]
        self.prop, self.tier = prop, tier
    def run(self):
        if not self.hs: return
        gen = self.gen = make_gen('kani')
        out = os.path.join(BUILD, 'k.json')
        cap = props.CAP[self.tier]
        for attempt in range(10):
            have = set()
            for p in glob.glob(os.path.join(gen, 'contracts', 'c_*.rs')):
                have |= {os.path.basename(p)[:-3] + '::' + n for n in re.findall(r'^\s*fn (\w+)\(\)', open(p).read(), re.M)}
            hs = [h['name'] for h in self.hs if h['name'] in have]
            if not hs: break
            if os.path.exists(out): os.remove(out)
            left = cap - (time.time() - T0)
            if left < 20: break
            cmd = ['timeout', '-k', '5', str(int(left)), 'cargo', 'kani', '-j', str(NCPU), '--exact'] + KFLAGS + ['--harness-timeout', f'{int(max(10, left - 15))}s', '--export-json', out]
            for h in hs: cmd += ['--harness', h]
            self.cmd = ' '.join(cmd)
            r = subprocess.run(cmd, cwd=os.path.join(gen, 'kani'), env=env('kani', gen), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            self.log = r.stdout
            if os.path.exists(out):
                try: self.res = json.load(open(out))
                except Exception: self.res = []
                return
            d = prune(gen, r.stdout)
            if not d: self.fail = 'verifier build failed: ' + '\n'.join([l for l in r.stdout.split('\n') if l.startswith('error')][:5]); return
            self.dropped += d
    def verdicts(self):
        """harness -> (status, failed checks, counts)"""
        v = {}
        if not self.res: return v
        pd = {x['harness_id']: x['property_details'] for x in self.res.get('property_details', [])}
        cb = {x['harness_id']: x.get('cbmc_stats') or {} for x in self.res.get('cbmc', [])}
        for r in self.res['verification_results']['results']:
            h = r['harness_id']
            checks = r.get('checks') or []
            bad = [c for c in checks if c['status'] == 'Failure']
            und = [c for c in checks if c['status'] not in ('Success', 'Failure', 'Satisfied', 'Unreachable')]
            labels = [(c['description'].strip('"'), c['status']) for c in checks if re.match(r'^"?[a-z0-9-]+/', c['description'])]
            tool = lambda c: re.search(r'unwinding assertion|stubbed callee reached|not currently supported|unsupported|recursion unwinding', c['description'])
            real = [c for c in bad if not tool(c)]
            d = pd.get(h) or {}
            covered = any(c['status'] == 'Satisfied' for c in checks)
            if r['status'] == 'Success' and covered and d.get('passed', 0) > 0: st = 'ok'
            elif r['status'] == 'Success': st = 'vacuous'
            elif any(tool(c) for c in bad): st = 'undecided'
            elif real: st = 'fail'
            else: st = 'undecided'
            v[h] = dict(status=st, bad=real, tool=[c['description'] for c in bad if tool(c)], total=d.get('total_properties', 0) - d.get('satisfied', 0) - d.get('unsatisfiable', 0), passed=d.get('passed', 0) + d.get('unreachable', 0), labels=labels,
                        ms=r.get('duration_ms', 0), solver=(cb.get(h) or {}).get('runtime_decision_procedure_s') or 0)
        return v
    def playback(self, h):
        """Counterexample values of a failing harness."""
        cmd = ['timeout', '240', 'cargo', 'kani', '--exact'] + KFLAGS + ['-Z', 'concrete-playback', '--concrete-playback=print', '--harness', h]
        r = subprocess.run(cmd, cwd=os.path.join(self.gen, 'kani'), env=env('kani', self.gen), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        tests = []
        for m in re.finditer(r'concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', r.stdout, re.S):
            tests.append([[int(x) for x in re.findall(r'\d+', v)] for v in re.findall(r'vec!\[([^\]]*)\]', m.group(1))])
        return tests, r.stdout

class Native:
    def __init__(self): self.ok, self.dropped, self.log = False, [], ''
    def build(self):
        gen = self.gen = make_gen('native')
        for attempt in range(10):
            r = subprocess.run(['cargo', 'build', '--offline'], cwd=os.path.join(gen, 'native'), env=env('native', gen), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            self.log = r.stdout
            if r.returncode == 0: self.ok = True; return
            d = prune(gen, r.stdout)
            if not d: return
            self.dropped += d
    def run(self, args, timeout):
        b = os.path.join(BUILD, 'native', 'debug', 'nbn')
        try: r = subprocess.run([b] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout, cwd=BUILD)
        except subprocess.TimeoutExpired: return None
        try: return json.loads(r.stdout.strip().split('\n')[-1])
        except Exception: return dict(status='crash', rc=r.returncode, stderr=r.stderr[-2000:])

def par(tasks, width):
    """Runs thunks on `width` threads."""
    q, lock = list(tasks), threading.Lock()
    def work():
        while True:
            with lock:
                if not q: return
                t = q.pop(0)
            t()
    ts = [threading.Thread(target=work) for _ in range(width)]
    [t.start() for t in ts]; [t.join() for t in ts]

def findings(pid):
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    for l in open(p):
        m = re.match(r'^finding: property=(\S+) key=(\S+) (.*)$', l.strip())
        if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def check(pid, tier):
    prop = props.PROPS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(BUILD, exist_ok=True)
    rdir = os.path.join(BUILD, 'replay'); os.makedirs(rdir, exist_ok=True)
    kani, nat, ver = Kani(prop, tier), Native(), None
    kt = threading.Thread(target=kani.run); kt.start()
    if prop.get('verus'):
        import verus_run
        ver = verus_run.Run(prop['verus'], BUILD, tier)
        vt = threading.Thread(target=ver.run); vt.start()
    nat.build()
    viol, known, native_ev, notes = [], [], [], []
    kf = findings(pid)
    def report(kind, name, detail, tail=''):
        for key, text in kf:
            if re.search(key, json.dumps(detail)):
                if (key, text) not in known: known.append((key, text))
                return
        path = os.path.join(rdir, f'{pid}-{len(viol)}.json')
        json.dump(dict(property=pid, kind=kind, name=name, detail=detail, how=f'python3 {VERIF}/run/check.py --replay {path}'), open(path, 'w'), indent=1)
        viol.append((path, tail, name))
    lock = threading.Lock()
    if nat.ok:
        def contract(n, secs):
            def f():
                r = nat.run(['contract', n, '--seed', seed, '--secs', secs], secs * 3 + 60)
                with lock:
                    if r is None: report('contract', n, dict(status='hang'))
                    elif r['status'] in ('fail', 'crash'): report('contract', n, r)
                    elif r['status'] == 'ok': native_ev.append(dict(contract=n, **{k: r[k] for k in ('evaluations', 'accepted', 'distinct', 'samples')}))
                    else: notes.append(f'contract {n} not available natively')
            return f
        def explore(p, secs, w):
            def f():
                r = nat.run(['explore', p, '--seed', seed * 1000 + w, '--secs', secs, '--tier', tier], secs * 3 + 90)
                with lock:
                    if r is None: notes.append(f'profile {p} worker {w} did not finish in its time')
                    elif r['status'] == 'crash' and r.get('rc', 0) in (0, -9): notes.append(f'profile {p} worker {w} stopped early: {r.get("msg", r)}')
                    elif r['status'] in ('fail', 'crash'): report('explore', p, r)
                    elif r['status'] == 'ok': native_ev.append(dict(profile=p, **{k: r[k] for k in ('evaluations', 'distinct', 'discarded', 'samples', 'rule')}))
                    else: notes.append(f'profile {p} not available')
            return f
        k = 1 if tier == 'quick' else 8
        tasks = [contract(n, (2 if tier == 'quick' else 10)) for n in prop.get('contracts', [])]
        for p, secs, width in prop.get('explore', []): tasks += [explore(p, secs * k, w) for w in range(width)]
        par(tasks, max(2, NCPU // 2))
    else: notes.append('native build failed: ' + '\n'.join([l for l in nat.log.split('\n') if l.startswith('error')][:5]))
    kt.join()
    if kani.fail: notes.append(kani.fail)
    for d in kani.dropped + nat.dropped: notes.append('anchor lost, not checked by this run: ' + d)
    vs = kani.verdicts()
    for h, v in vs.items():
        if v['status'] != 'fail': continue
        n = h.split('::')[1]
        detail = dict(failed_obligations=[dict(obligation=c['description'], function=c.get('function'), location=c.get('location')) for c in v['bad']], harness=h)
        hit = None
        if nat.ok:
            tests, log = kani.playback(h)
            detail['verifier_output'] = log[-6000:]
            for i, t in enumerate(tests):
                bf = os.path.join(rdir, f'{pid}-{n}-{i}.bytes'); json.dump(t, open(bf, 'w'))
                r = nat.run(['contract', n, '--bytes', bf], 60)
                if r and r['status'] in ('fail', 'crash'): hit = r; detail.update(bytes=t, replayed=r); break
            if not hit:
                r = nat.run(['contract', n, '--seed', seed, '--secs', 10], 60)
                if r and r['status'] in ('fail', 'crash'): hit = r; detail.update(search=r)
        else: detail['verifier_output'] = kani.log[-6000:]
        report('obligation', n, detail, '' if hit or viol else 'no-failing-input-found')
    if ver:
        vt.join()
        notes += ver.notes
        for name, out in ver.failed:
            hit = [x for x in viol if not x[1]]
            report('obligation', name, dict(failed_obligations=[name], verifier_output=out[-6000:]), '' if hit else 'no-failing-input-found')
    if viol and all(x[1] for x in viol) and nat.ok and prop.get('explore'):
        # an obligation fails and no input is known yet: look longer, with other seeds, until one is found
        stop = threading.Event()
        def search(p, w):
            def f():
                for round_ in range(1, 9):
                    if stop.is_set(): return
                    r = nat.run(['explore', p, '--seed', seed * 1000 + 100 * round_ + w, '--secs', 20, '--tier', tier], 150)
                    if r and r['status'] in ('fail', 'crash') and not (r['status'] == 'crash' and r.get('rc', 0) in (0, -9)):
                        with lock:
                            if not stop.is_set(): report('explore', p, r)
                        if any(not x[1] for x in viol): stop.set()
            return f
        ps = [p for p, _, _ in prop['explore']]
        par([search(ps[w % len(ps)], w) for w in range(NCPU)], NCPU)
    und = [h['name'] for h in kani.hs if vs.get(h['name'], {}).get('status') not in ('ok', 'fail')]
    for h in und: notes.append(f"obligations of {h} undecided on this run ({(vs.get(h) or {}).get('status', 'not run')}; {'; '.join((vs.get(h) or {}).get('tool', [])[:2])}); the native check stands in")
    bounded = {h['name']: h['bounded'] for h in kani.hs if h.get('bounded')}
    unb = [v for h, v in vs.items() if h not in bounded]
    obl = sum(v['total'] for v in unb); dis = sum(v['passed'] for v in unb)
    if ver: obl += ver.obligations; dis += ver.discharged
    cov = dict(
        obligations=obl, discharged=dis,
        checker_cmd=getattr(kani, 'cmd', '') or (ver.cmd if ver else ''),
        trusted_base=props.TRUSTED + prop.get('trusted', []),
        functions_under_contract=prop['functions'],
        contracts=[dict(contract=h, status=v['status'], obligations=v['total'], discharged=v['passed'], wall_ms=v['ms'], solver_s=round(v['solver'], 3), named={a: b for a, b in v['labels']}, **({'bounded': bounded[h]} if h in bounded else {})) for h, v in sorted(vs.items())],
        back_end='CBMC 6.11.0 (cadical) through Kani 0.68.0' + ('; Z3 through Verus' if ver else ''),
        solver_s=round(sum(v['solver'] for v in vs.values()) + (ver.secs if ver else 0), 2),
        undecided=und, notes=notes)
    if ver: cov['verus'] = ver.evidence
    if native_ev:
        cov['bounded_native'] = native_ev
        cov['evaluations'] = sum(x['evaluations'] for x in native_ev)
        cov['distinct_nontrivial'] = sum(x['distinct'] for x in native_ev)
        cov['rule'] = prop.get('rule', 'contract inputs drawn at random with boundary bias; distinct accepted input tuples are counted') 
        cov['samples'] = [s for x in native_ev for s in x['samples'][:1]][:6]
    level = prop['level']
    if level == 'other': cov['explanation'] = prop['note']
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=prop.get('assumptions', []), wall_s=round(time.time() - T0, 1), violations=len(viol)), open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for key, text in known: print(f'KNOWN-FINDING: property={pid} {text}')
    for n in notes: print('note:', n[:600])
    print(f"{pid} {tier}: obligations {dis}/{obl} discharged in {sum(v['status'] == 'ok' for v in vs.values())}/{len(kani.hs)} contracts; native evaluations {cov.get('evaluations', 0)}; {time.time() - T0:.0f} s")
    viol.sort(key=lambda v: bool(v[1]))
    for path, tail, name in viol[:5]:
        print(f'violated: {name}')
        print(f'VIOLATION property={pid} replay={path}' + (' ' + tail if tail else ''))
    return 1 if viol else 0

def replay(path):
    d = json.load(open(path)); n = Native(); n.build()
    if not n.ok: print('native build failed'); return 1
    det = d['detail']
    if d['kind'] == 'explore': r = n.run(['replay', d['name'], '--case', det.get('case', 0)], 120)
    elif det.get('bytes'):
        bf = os.path.join(BUILD, 'replay.bytes'); json.dump(det['bytes'], open(bf, 'w')); r = n.run(['contract', d['name'], '--bytes', bf], 60)
    else: r = n.run(['contract', d['name'], '--seed', int(os.environ.get('VERIF_SEED', '1')), '--secs', 10], 60)
    print(json.dumps(r, indent=1)); return 1 if r and r['status'] in ('fail', 'crash') else 0

def main():
    a = sys.argv[1:]
    if a[:1] == ['--setup']:
        os.makedirs(BUILD, exist_ok=True)
        n = Native(); n.build(); print('native build', 'ok' if n.ok else 'FAILED\n' + n.log[-3000:])
        return 0 if n.ok else 1
    if a[:1] == ['--replay']: return replay(a[1])
    tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
    return check(a[0], tier)
if __name__ == '__main__':
    try: rc = main()
    except SystemExit: raise
    sys.exit(rc)
