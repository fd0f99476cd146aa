"""Decides one property:  run.py ID

  1. TLC explores the model spec/MC_<ID>.tla exhaustively; every reachable heap
     has to obey the laws of the property.  Complete histories come out as
     programs.
  2. harness/gen.py makes more programs at random (VERIF_SEED).
  3. harness/driver.py executes all programs on dcf and records the outcomes.
  4. TLC validates the recorded executions against spec/Trace.tla.

exit 0: property held, 1: VIOLATION, 2: the machinery failed
"""
import collections
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
CLS = os.path.join(ROOT, 'build', 'cls')
TLA = os.environ.get('TLA_HOME', '/opt/veriftools/tla')
JAR = os.path.join(TLA, 'tla2tools.jar')
MODULES = os.path.join(TLA, 'CommunityModules-deps.jar')
PYTHON = next((p for p in ('/opt/venv/bin/python', sys.executable) if os.path.exists(p)))
REPO = os.environ.get('DCF_REPO', '/repo')
WORKERS = min(8, os.cpu_count() or 1)


class Machinery(Exception):
    """the check itself failed"""


def log(*args):
    print(*args, flush=True)


# ------------------------------------------------------------------------ TLC
def compile_java():
    src = os.path.join(ROOT, 'java', 'dcfspec', 'RealOverrides.java')
    dst = os.path.join(CLS, 'dcfspec', 'RealOverrides.class')
    if os.path.exists(dst) and os.path.getmtime(dst) >= os.path.getmtime(src):
        return
    os.makedirs(CLS, exist_ok=True)
    subprocess.run(['javac', '-nowarn', '-cp', JAR, '-d', CLS, src], check=True)


def tlc(module, config, work, name, env, timeout, heap='6g', workers=WORKERS):
    out = os.path.join(work, name + '.out')
    meta = os.path.join(work, name + '.meta')
    cmd = ['java', '-Xmx' + heap, '-Xss16m', '-XX:+UseParallelGC',
           '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:dcfspec.RealOverrides',
           '-cp', ':'.join((JAR, MODULES, CLS)), 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', meta,
           '-workers', str(workers), '-config', config, module + '.tla']
    with open(out, 'w') as f:
        try:
            rc = subprocess.run(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, timeout=timeout,
                                env=dict(os.environ, **env)).returncode
        except subprocess.TimeoutExpired:
            if module != 'Trace':
                raise Machinery('TLC ran out of time on %s' % module)
            rc = 124
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


def printed(out):
    """lines printed by the specification: (tag, content), and the lines of TLC"""
    lines, rest = list(), list()
    with open(out) as f:
        for line in f:
            if line.startswith('"') and line.rstrip().endswith('"'):
                tag, _, text = json.loads(line).partition(' ')
                lines.append((tag, json.loads(text)))
            else:
                rest.append(line)
    return lines, rest


def counts(rest):
    for line in rest:
        if 'states generated,' in line and 'distinct states found' in line:
            w = line.replace(',', '').split()
            return int(w[0]), int(w[3])
    return 0, 0


def model(pid, work, tier):
    """exhaustive exploration of the model, programs of the complete histories"""
    rc, out = tlc('MC_' + pid, 'MC.cfg', work, 'mc', {'TIER': tier}, 3600 if tier == 'thorough' else 600)
    lines, rest = printed(out)
    bad = [x for t, x in lines if t == 'UNLAWFUL']
    if bad or rc != 0:
        tail = ''.join(rest[-40:])
        raise Machinery('model MC_%s is not lawful or failed: %s\n%s' % (pid, json.dumps(bad[:3]), tail))
    laws = collections.Counter()
    for t, x in lines:
        if t == 'LAWS':
            laws.update(x)
    generated, distinct = counts(rest)
    progs = [x for t, x in lines if t == 'PROG']
    progs.sort(key=lambda p: json.dumps(p, sort_keys=True))  # workers print in any order
    return {'states': distinct, 'transitions': generated, 'laws': dict(sorted(laws.items())), 'programs': progs}


# ------------------------------------------------------------------------ execution
def execute(programs, work, patience=250):
    """runs programs on dcf, in parallel; what is not done in time is cut off"""
    n = min(WORKERS, max(1, len(programs) // 20))
    jobs = list()
    for i in range(n):
        src, dst = (os.path.join(work, '%s%d.jsonl' % (k, i)) for k in ('prog', 'trace'))
        with open(src, 'w') as f:
            for p in programs[i::n]:
                f.write(json.dumps(p) + '\n')
        err = open(os.path.join(work, 'driver%d.err' % i), 'w')
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', DCF_REPO=REPO, MPLBACKEND='Agg')
        jobs.append((subprocess.Popen([PYTHON, os.path.join(ROOT, 'harness', 'driver.py'), src, dst],
                                      stdout=err, stderr=err, env=env, cwd=work), dst, err))
    files = list()
    cut = False
    end = time.time() + patience
    for job, dst, err in jobs:
        try:
            rc = job.wait(max(1., end - time.time()))
        except subprocess.TimeoutExpired:
            job.kill()
            job.wait()
            rc, cut = 0, True
        err.close()
        if rc != 0:
            raise Machinery('driver failed: ' + open(err.name).read()[-2000:])
        files.append(dst)
    return files, cut


def validate(files, work, timeout):
    """recorded executions against the specification"""
    merged = os.path.join(work, 'traces.jsonl')
    traces = dict()
    with open(merged, 'w') as g:
        for name in files:
            for line in open(name):
                if not line.endswith('\n'):
                    continue  # cut off
                t = json.loads(line)
                traces[t['id']] = t
                g.write(line)
    if not traces:
        raise Machinery('no traces')
    rc, out = tlc('Trace', 'Trace.cfg', work, 'trace', {'TRACE': merged}, timeout)
    lines, rest = printed(out)
    generated, distinct = counts(rest)
    want = sum(len(t['ev']) + 1 for t in traces.values())
    bads = [x for t, x in lines if t == 'BAD']
    if rc != 0 or distinct != want:
        known = known_findings()
        if any(c['c'] not in known and c['want'] != 'nan' for b in bads for c in b['bad']):
            # a broken trace may well lead to where the specification does not go
            return traces, bads, {'states': distinct, 'transitions': generated}
        raise Machinery('validation incomplete: %d of %d states, rc %d\n%s' % (distinct, want, rc, ''.join(rest[-30:])))
    return traces, bads, {'states': distinct, 'transitions': generated}


def known_findings():
    """clause -> description of findings that are known and not repaired"""
    with open(os.path.join(ROOT, 'known_findings.json')) as f:
        return {x['clause']: x for x in json.load(f)['known']}


def judge(pid, traces, bads, replay_dir):
    """violations (with replay files), known findings, undefined"""
    known = known_findings()
    hits, violations, undefined = collections.Counter(), list(), 0
    for b in sorted(bads, key=lambda x: (x['id'], x['l'])):
        rest = list()
        for c in b['bad']:
            if c['c'] in known:
                hits[c['c']] += 1
            elif c['want'] == 'nan':
                undefined += 1
            else:
                rest.append(c)
        if rest:
            violations.append((traces[b['id']], b['l'], rest))
    files = list()
    seen = set()
    for t, l, bad in violations:
        ev = t['ev'][l - 1]
        key = (ev['op'], ev.get('cls'), ev.get('fn'), bad[0]['c'])
        if key in seen or len(files) >= 10:
            continue
        seen.add(key)
        os.makedirs(replay_dir, exist_ok=True)
        name = os.path.join(replay_dir, '%s-%d.json' % (pid, len(files) + 1))
        prog = [{k: v for k, v in e.items() if k != 'out'} for e in t['ev'][:l]]
        with open(name, 'w') as f:
            json.dump({'property': pid, 'broken': bad, 'event': ev, 'program':
                       {'id': 1, 'pure': pid == 'C21', 'whole': t.get('whole', False), 'kind': t['kind'], 'name': t['name'], 'ev': prog}}, f, indent=1)
        files.append((name, ev, bad))
    return violations, files, hits, undefined


# ------------------------------------------------------------------------ check
def limit(programs, n, rng):
    if len(programs) <= n:
        return programs
    return [programs[i] for i in sorted(rng.sample(range(len(programs)), n))]


def check(pid):
    import gen
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    thorough = tier == 'thorough'
    work = os.path.join(ROOT, 'work', pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    replay_dir = os.path.join(ROOT, 'evidence', 'replay')
    for old in glob.glob(os.path.join(replay_dir, pid + '-*.json')):
        os.remove(old)
    compile_java()

    m = model(pid, work, tier)
    t1 = time.time()
    rng = random.Random('%s-%d' % (pid, seed))
    from_model = limit(m['programs'], 60000 if thorough else gen.MODEL_LIMIT.get(pid, 5000), rng)
    random_ = gen.programs(pid, rng, (12 if thorough else 1) * gen.COUNT.get(pid, 300))
    programs = from_model + random_
    for i, p in enumerate(programs):
        p['id'] = i + 1
        p['pure'] = pid == 'C21'
        p['whole'] = i % 4 == 3
    files, cut = execute(programs, work, 14400 if thorough else 250)
    t2 = time.time()
    traces, bads, v = validate(files, work, 7200 if thorough else 550)
    t3 = time.time()
    violations, replays, hits, undefined = judge(pid, traces, bads, replay_dir)
    if cut and not replays:
        raise Machinery('programs ran out of time, %d of %d done' % (len(traces), len(programs)))
    known = known_findings()

    ops = collections.Counter(e['op'] for t in traces.values() for e in t['ev'])
    out = collections.Counter(e['out']['t'] for t in traces.values() for e in t['ev'])
    sample = [traces[i] for i in sorted(rng.sample(sorted(traces), min(3, len(traces))))]
    sample = [{'name': t['name'], 'kind': t['kind'], 'ev': t['ev'][:6]} for t in sample]
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': m['states'], 'transitions': m['transitions'],
            'traces_validated_against_impl': len(traces),
            'trace_states': v['states'], 'events': sum(ops.values()),
            'model_histories': len(m['programs']), 'model_histories_replayed': len(from_model),
            'random_programs': len(random_), 'laws_evaluated': m['laws'],
            'events_by_operation': dict(sorted(ops.items())), 'outcomes': dict(sorted(out.items())),
            'undefined_in_model': undefined, 'known_findings': dict(hits), 'samples': sample,
            'exhaustive': False},
        'assumptions': ['reals of the specification are 40 digit decimals, compared with doubles to 1e-9 relative',
                        'programs are drawn from the input classes described in DESIGN.md'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    log('%s: model %d states, laws %s' % (pid, m['states'], m['laws']))
    log('%s: %d traces, %d events validated, undefined %d (model %.1fs, run %.1fs, validation %.1fs)' % (
        pid, len(traces), sum(ops.values()), undefined, t1 - t0, t2 - t1, t3 - t2))
    for c, n in sorted(hits.items()):
        log('KNOWN-FINDING: property=%s %s: %s (%d times)' % (known[c]['property'], c, known[c]['what'], n))
    for name, ev, bad in replays:
        log('  %s -> %s' % (json.dumps(ev)[:600], json.dumps(bad)[:300]))
        log('VIOLATION property=%s replay=%s' % (pid, name))
    if not os.environ.get('VERIF_KEEP'):
        shutil.rmtree(work, ignore_errors=True)
    return 1 if replays else 0


def replay(name):
    """runs one program again"""
    with open(name) as f:
        program = json.load(f)['program']
    work = os.path.join(ROOT, 'work', 'replay')
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    compile_java()
    traces, bads, _ = validate(execute([program], work)[0], work, 800)
    for i, e in enumerate(traces[1]['ev']):
        log('%3d %s' % (i + 1, json.dumps(e)[:400]))
    for b in bads:
        log('broken at %d: %s' % (b['l'], json.dumps(b['bad'])))
    shutil.rmtree(work, ignore_errors=True)
    return 1 if bads else 0


def main():
    sys.path.insert(0, os.path.join(ROOT, 'harness'))
    try:
        if sys.argv[1] == '--replay':
            return replay(sys.argv[2])
        return check(sys.argv[1])
    except Machinery as e:
        log('MACHINERY: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
