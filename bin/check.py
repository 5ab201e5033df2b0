#!/usr/bin/env python3
"""Decide one property: model-check its specification, run the real code of /repo on generated
scenes/behaviours, and validate what it did against the specification with TLC.

  bin/check.py C02 [--tier quick|thorough] [--seed N] [--keep]
"""
import argparse, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'bin'))
REPO = os.environ.get('GX_REPO', '/repo')
from checks import CHECKS  # noqa

JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CXX = ['g++', '-std=c++14', '-O1', '-w', '-DBOOST_RESULT_OF_USE_TR1_WITH_DECLTYPE_FALLBACK', '-DBOOST_CHRONO_HEADER_ONLY',
       '-DBOOST_PARAMETER_MAX_ARITY=20', '-I' + REPO, '-I' + os.path.join(ROOT, 'harness')]
NSH = 8


def die(msg):
    print('ERROR: ' + msg)
    sys.exit(2)


def tlc(wd, module, cfg, env=None, workers=1, extra=(), xmx='2g', timeout=800):
    meta = os.path.join(wd, 'meta-' + os.path.basename(cfg))
    cmd = ['java', '-Xmx' + xmx, '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=%d' % (1 if workers == 1 else 4), '-Xss16m', '-Djava.io.tmpdir=' + wd,
           '-DTLA-Library=' + os.path.join(ROOT, 'spec') + ':' + wd, '-cp', JAR, 'tlc2.TLC', '-workers', str(workers),
           '-deadlock', '-metadir', meta, '-noGenerateSpecTE', '-config', cfg, *extra, module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as t:
        out, rc = (t.stdout.decode() if t.stdout else '') + '\nTIMEOUT', -1
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


def counts(out):
    m = re.findall(r'(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found', out)
    if not m:
        m = re.findall(r'(\d+) states checked', out)
        return (int(m[-1]), int(m[-1])) if m else (0, 0)
    return int(m[-1][0]), int(m[-1][1])


def first_error(out):
    i = out.find('Error:')
    return out[i:i + 1500] if i >= 0 else out[-1500:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--verbose', '-v', type=int, default=0)
    a = ap.parse_args()
    pid, tier, seed = a.id, a.tier, a.seed
    c = CHECKS[pid]
    t0 = time.time()
    wd = os.path.join(ROOT, '.work', pid)
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    th = tier == 'thorough'
    pool = ThreadPoolExecutor(12)

    # 1. compile the drivers from /repo's working tree; 2. model-check the specification meanwhile
    drivers = c['drivers']

    def build(d, part=None):
        exe = os.path.join(wd, d['src'].replace('.cpp', ''))
        extra = ['-I' + wd] + d.get('flags', [])
        if part is not None:
            # the generated programs are part of the driver: shard k runs every NSH-th of them
            lines = open(scripts[d['parts']]).read().splitlines(True)
            open(os.path.join(wd, 'gen-%d.inc' % part), 'w').write(''.join(lines[part::NSH]))
            extra += ['-DGEN_INC="gen-%d.inc"' % part]
            exe += '-%d' % part
        p = subprocess.run(CXX + extra + ['-o', exe, os.path.join(ROOT, 'harness', d['src'])], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout, exe
    builds = [pool.submit(build, d) if 'parts' not in d else None for d in drivers]

    def run_mc(m):
        if m.get('tier') and m['tier'] != tier:
            return None
        cfg = os.path.join(ROOT, 'spec', m['thorough_cfg'] if th and 'thorough_cfg' in m else m['cfg'])
        mod = os.path.join(ROOT, 'spec', m['module'])
        extra = list(m.get('args', []))
        if m.get('simulate'):
            n = m['simulate'][1 if th else 0]
            extra += ['-simulate', 'num=%d' % n, '-depth', str(m['depth']), '-seed', str(seed)]
        outf = os.path.join(wd, 'beh-' + m['module'] + '-' + m['cfg'] + '.txt')
        t = time.time()
        rc, out = tlc(wd, mod, cfg, env={'BEH': outf}, workers=m.get('workers', 4) if not m.get('gen') else 1,
                      extra=extra, xmx='6g', timeout=840 if not th else 6000)
        return m, rc, out, outf, time.time() - t
    mcs = [pool.submit(run_mc, m) for m in c.get('mc', [])]

    states = transitions = 0
    models = []
    scripts = {}
    for f in mcs:
        res = f.result()
        if res is None:
            continue
        m, rc, out, outf, dt = res
        ok = rc == 0 and ('No error has been found' in out or (m.get('simulate') and 'Error:' not in out and rc == 0))
        if not ok:
            die('specification %s/%s does not satisfy its properties or failed to run:\n%s' % (m['module'], m['cfg'], first_error(out)))
        g, s = counts(out)
        states += s
        transitions += g
        models.append({'module': m['module'], 'config': m['cfg'], 'states': s, 'transitions': g, 'wall_s': round(dt, 1)})
        if m.get('gen'):
            if not os.path.exists(outf):
                die('no behaviours were generated by ' + m['module'])
            scripts[m['gen']] = outf
    exes = []
    for d, b in zip(drivers, builds):
        bs = [b.result()] if b else list(ThreadPoolExecutor(8).map(lambda k: build(d, k), range(NSH)))
        for rc, out, exe in bs:
            if rc != 0:
                die('driver %s does not compile against %s:\n%s' % (d['src'], REPO, out[-3000:]))
        exes.append([x[2] for x in bs])
    t_build = time.time() - t0

    # 3. run the real code
    def run(di, sh):
        d, exe = drivers[di], exes[di][sh % len(exes[di])]
        out = os.path.join(wd, '%s-%d.ndjson' % (d['src'].replace('.cpp', ''), sh))
        cmd = [exe, '--shard', str(sh), '--shards', str(NSH), '--tier', tier, '--seed', str(seed), '--out', out]
        if d.get('script'):
            cmd += ['--script', scripts[d['script']]]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=3000 if th else 600, cwd=wd)
            return di, sh, out, p.returncode, p.stdout.strip()
        except subprocess.TimeoutExpired:
            return di, sh, out, -999, ''
    jobs = [(i, s) for i in range(len(drivers)) for s in range(NSH)]
    runs = list(ThreadPoolExecutor(8).map(lambda t: run(*t), jobs))
    t_run = time.time() - t0
    failing = []
    recs = 0
    for di, sh, out, rc, so in runs:
        if rc == -999:
            die('driver timed out')
        if rc != 0:
            failing.append((out, -1, {'op': 'driver-exit', 'a': [rc], 'x': 'crash', 'r': []}))

    # 4. trace validation
    def validate(t):
        di, sh, out, rc, so = t
        d = drivers[di]
        lines = [l for l in open(out).read().split('\n') if l]
        if not lines:
            return out, [], 0, 0, None, []
        if not lines[-1].endswith('}'):
            lines = lines[:-1]
            open(out, 'w').write('\n'.join(lines) + '\n')
        name = 'T_%s_%d' % (d['src'].replace('.cpp', ''), sh)
        acc = d['accepts']
        open(os.path.join(wd, name + '.tla'), 'w').write(
            '---- MODULE %s ----\nEXTENDS %s, TraceBase\n====\n' % (name, d['module']))
        open(os.path.join(wd, name + '.cfg'), 'w').write(
            'SPECIFICATION TSpec\nCONSTANT Accepts <- %s\nPOSTCONDITION TraceConsumed\nCHECK_DEADLOCK FALSE\n' % acc + d.get('cfg', ''))
        rc, o = tlc(wd, name + '.tla', os.path.join(wd, name + '.cfg'), env={'TRACE': out}, xmx='3g', timeout=6000 if th else 800)
        bad = [int(x) for x in re.findall(r'<<"NONCONFORMING", (\d+)>>', o)]
        g, s = counts(o)
        err = None
        if rc != 0 or 'No error has been found' not in o:
            m = re.findall(r'pos = (\d+)', o)
            if m and 'TIMEOUT' not in o and 'OutOfMemory' not in o:
                bad.append(int(m[-1]))      # the reply could not even be evaluated against the specification
                err = ('eval', first_error(o))
            else:
                err = ('fail', first_error(o))
        return out, bad, s, g, err, lines
    tv_states = 0
    ops = {}
    samples = []
    for out, bad, s, g, err, lines in ThreadPoolExecutor(8).map(validate, runs):
        if err and err[0] == 'fail':
            die('TLC failed on %s: %s' % (out, err[1]))
        if err and (a.verbose or a.keep):
            print('note: ' + err[1])
        tv_states += s
        recs += len(lines)
        for k, l in enumerate(lines):
            op = l[7:l.index('"', 7)]
            if op not in ops:
                samples.append(json.loads(l))
            ops[op] = ops.get(op, 0) + 1
        for b in bad:
            failing.append((out, b, json.loads(lines[b - 1])))
    states += tv_states
    transitions += recs

    # 5. verdict
    known = []
    kf = os.path.join(ROOT, 'known_findings.jsonl')
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l.startswith('{'):
                e = json.loads(l)
                if e['property'] == pid:
                    known.append(e)

    def match(r):
        for e in known:
            if r['op'] == e['op'] and r['a'] == e['a']:
                return e
        return None
    viol, seen = [], {}
    for out, b, r in failing:
        e = match(r)
        if e is None:
            viol.append((out, b, r))
        else:
            seen.setdefault(e['what'], 0)
            seen[e['what']] += 1
    for w in seen:
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    cov = {'states': states, 'transitions': transitions, 'traces_validated_against_impl': recs,
           'samples': [s for s in samples[:12]], 'models': models, 'records_by_operation': ops,
           'trace_states': tv_states, 'known_findings_seen': len(seen),
           'records_refused': len(failing)}
    for s in cov['samples']:
        t = json.dumps(s)
        if len(t) > 1500:
            cov['samples'][cov['samples'].index(s)] = {'op': s['op'], 'text': t[:1500]}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': c.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    if recs == 0 and not failing:
        die('no behaviour of the code was observed')
    code = 0
    if viol:
        rp = os.path.join(ROOT, '.work', 'replay-%s.json' % pid)
        json.dump({'property': pid, 'seed': seed, 'tier': tier, 'count': len(viol),
                   'command': 'bin/check.py %s --tier %s --seed %d' % (pid, tier, seed),
                   'records': [{'trace': os.path.basename(o), 'index': b, 'record': r} for o, b, r in viol[:200]]},
                  open(rp, 'w'), indent=1)
        byop = {}
        for o, b, r in viol:
            byop.setdefault(r['op'], []).append(r)
        for op, rs in byop.items():
            print('refused %d x %s' % (len(rs), op))
            for r in sorted(rs, key=lambda r: len(json.dumps(r)))[:a.verbose or 2]:
                print('   ' + json.dumps(r)[:1200])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        code = 1
    print('%s %s seed=%d: %d records of the implementation validated, %d states, %d refused; build %.1fs run %.1fs total %.1fs'
          % (pid, tier, seed, recs, states, len(viol), t_build, t_run - t_build, time.time() - t0))
    if not a.keep and code == 0:
        shutil.rmtree(wd, ignore_errors=True)
    sys.exit(code)


main()
