#!/usr/bin/env python3
"""Builds a check's harness from /repo's working tree, explores, writes evidence and reports.

  run.py C05 [--tier quick|thorough]     run a check (tier defaults to $VERIF_TIER or quick)
  run.py C05 --replay FILE               run one recorded execution again
  run.py --list
"""
import sys, os, json, subprocess, time, shutil, glob, re
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(HERE, 'tools'))
from checks_table import CHECKS

SRC = os.path.join(REPO, 'boofcpp/src/boofcv')
JNI = os.path.join(REPO, 'boofcpp-jni/src/main/cpp')
JAVA = '/usr/lib/jvm/java-17-openjdk-amd64/include'
BASE = ['-std=c++14', '-g1', '-fno-omit-frame-pointer', '-w', '-pthread']


def known_findings(prop):
    sigs = []
    f = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r'known: property=(\S+) sig=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                sigs.append((m.group(2), m.group(3).strip()))
    return sigs


def compile_all(spec, work):
    mode = spec.get('san', 'address')
    opt = spec.get('opt', '-O2')
    inc = ['-I', os.path.join(HERE, 'lib'), '-I', SRC]
    san = {'address': ['-fsanitize=address'], 'none': [], 'tsan-own': []}[mode]
    jobs = []
    for s in spec['src']:
        jobs.append((os.path.join(HERE, s), spec.get('flags', []) + (spec.get('instr', []) if mode == 'tsan-own' and s in spec.get('instrument', []) else [])))
    for s in sorted(glob.glob(os.path.join(SRC, '*.cpp'))):
        jobs.append((s, spec.get('instr', []) if mode == 'tsan-own' else []))
    if spec.get('jni'):
        inc += ['-I', JNI, '-I', JAVA, '-I', JAVA + '/linux']
        for s in sorted(glob.glob(os.path.join(JNI, '*.cpp'))):
            jobs.append((s, spec.get('jniflags', [])))
    objs = []

    def one(j):
        i, (src, extra) = j
        obj = os.path.join(work, '%d_%s.o' % (i, os.path.basename(src)))
        r = subprocess.run(['g++'] + BASE + [opt] + san + inc + extra + ['-c', src, '-o', obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        return obj, r.returncode, src, r.stdout
    with ThreadPoolExecutor(8) as ex:
        for obj, rc, src, out in ex.map(one, list(enumerate(jobs))):
            if rc:
                print('ERROR: compiling %s failed\n%s' % (src, out[-4000:]))
                sys.exit(2)
            objs.append(obj)
    if spec.get('java') == 'load':
        build_load(work)
    elif spec.get('java'):
        build_java(work, spec.get('schedjni'))
    exe = os.path.join(work, 'harness')
    r = subprocess.run(['g++', '-pthread'] + san + objs + ['-o', exe, '-ldl'] + spec.get('ldflags', []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if r.returncode:
        print('ERROR: linking failed\n' + r.stdout[-4000:])
        sys.exit(2)
    return exe


def java_sources():
    jsrc = os.path.join(os.path.dirname(os.path.dirname(JNI)), 'main', 'java')
    return [os.path.join(d, f) for root in (os.path.join(HERE, 'lib', 'java'), jsrc) for d, _, fs in os.walk(root) for f in fs if f.endswith('.java')]


def build_load(work):
    # the Java classes, and tiny native libraries that say which of them is loaded
    os.makedirs(os.path.join(work, 'classes'))
    cmds = [['javac', '-J-XX:-UsePerfData', '-nowarn', '-proc:none', '-d', os.path.join(work, 'classes')] + java_sources()]
    for ch in 'abcdefghijklmnopqrv':
        cmds.append(['gcc', '-shared', '-fPIC', '-O1', '-DID=\'%s\'' % ch, '-I', JAVA, '-I', JAVA + '/linux', os.path.join(HERE, 'lib/loadlib.c'), '-o', os.path.join(work, 'load_%s.so' % ch)])
    with ThreadPoolExecutor(8) as ex:
        for c, r in ex.map(lambda c: (c, subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)), cmds):
            if r.returncode:
                print('ERROR: %s failed\n%s' % (' '.join(c)[:300], r.stdout[-4000:])); sys.exit(2)


def build_java(work, sched=False):
    # the repository's Java classes with the stand-ins of lib/java, and its native library the way a Java machine loads it
    srcs = java_sources()
    os.makedirs(os.path.join(work, 'classes'))
    cmds = [['javac', '-J-XX:-UsePerfData', '-nowarn', '-proc:none', '-d', os.path.join(work, 'classes')] + srcs]
    inc = ['-I', SRC, '-I', JNI, '-I', JAVA, '-I', JAVA + '/linux']
    objs = []
    for s in sorted(glob.glob(os.path.join(JNI, '*.cpp'))) + sorted(glob.glob(os.path.join(SRC, '*.cpp'))):
        o = os.path.join(work, 'so_%d.o' % len(objs)); objs.append(o)
        cmds.append(['g++', '-std=gnu++14', '-g1', '-O1', '-w', '-fPIC'] + (['-fsanitize=thread'] if sched else []) + inc + ['-c', s, '-o', o])
    if sched:       # accesses to fields and to static data become scheduling points
        o = os.path.join(work, 'sched_rt.o'); objs.append(o); cmds.append(['g++', '-std=gnu++14', '-O1', '-fPIC'] + inc + ['-c', os.path.join(HERE, 'lib/sched_rt.cpp'), '-o', o])
        cmds.append(['javac', '-J-XX:-UsePerfData', '-nowarn', '--add-exports', 'java.base/jdk.internal.org.objectweb.asm=ALL-UNNAMED', '-d', os.path.join(work, 'instr'), os.path.join(HERE, 'lib/instr/Instrument.java')])

    def one(c):
        return c, subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    with ThreadPoolExecutor(8) as ex:
        for c, r in ex.map(one, cmds):
            if r.returncode:
                print('ERROR: %s failed\n%s' % (' '.join(c)[:300], r.stdout[-4000:])); sys.exit(2)
    if sched:
        c, r = one(['java', '-XX:-UsePerfData', '--add-exports', 'java.base/jdk.internal.org.objectweb.asm=ALL-UNNAMED', '-cp', os.path.join(work, 'instr'), 'Instrument', os.path.join(work, 'classes')])
        if r.returncode:
            print('ERROR: rewriting the classes failed\n' + r.stdout[-4000:]); sys.exit(2)
    c, r = one(['g++', '-shared'] + (['-Wl,' + ','.join('--wrap=' + f for f in ('memcpy', 'memmove', 'memset', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_once', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort'))] if sched else []) + objs + ['-o', os.path.join(work, 'libJNIBoofCPP.so')])
    if r.returncode:
        print('ERROR: linking failed\n' + r.stdout[-4000:]); sys.exit(2)


def main():
    a = sys.argv[1:]
    if not a or a[0] == '--list':
        for k in sorted(CHECKS):
            print(k, CHECKS[k]['src'])
        return 0
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    cap = None
    i = 1
    while i < len(a):
        if a[i] == '--tier':
            tier = a[i + 1]; i += 2
        elif a[i] == '--replay':
            replay = a[i + 1]; i += 2
        elif a[i] == '--cap':
            cap = a[i + 1]; i += 2
        else:
            print('unknown argument', a[i]); return 2
    seed = int(os.environ.get('VERIF_SEED', '1'))
    spec = CHECKS[prop]
    t0 = time.time()
    build = os.path.join(HERE, 'build')
    work = os.path.join(build, '%s-%d' % (prop, os.getpid()))
    replays = os.path.join(build, 'replays')
    os.makedirs(work, exist_ok=True)
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    try:
        exe = compile_all(spec, work)
        t_build = time.time() - t0
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = 'detect_leaks=0:quarantine_size_mb=%d:max_malloc_fill_size=1000000:malloc_fill_byte=190:hard_rss_limit_mb=3000:allocator_may_return_null=0:symbolize=1:handle_abort=1:detect_stack_use_after_return=0:allocator_release_to_os_interval_ms=-1' % spec.get('quarantine', 8)
        env['VERIF_JAVA'] = work
        known = known_findings(prop)
        rfile = os.path.join(replays, prop + '.replay')
        cmd = [exe, '--errdir', work, '--tier', tier]
        if replay:
            r = subprocess.run(cmd + ['--replay', replay], env=env)
            return r.returncode
        out = os.path.join(work, 'out.json')
        if os.path.exists(rfile):
            os.remove(rfile)
        cmd += ['--out', out, '--replay-out', rfile, '--cap', str(cap or (spec.get('cap', 500) if tier == 'quick' else spec.get('tcap', 700)))]
        cmd += ['--workers', str(spec.get('workers', 8))]
        for s, _ in known:
            cmd += ['--known', s]
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        if r.returncode not in (0, 1):
            print('ERROR: the explorer ended with status %d\n%s' % (r.returncode, r.stdout[-3000:]))
            return 3
        res = json.load(open(out))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    wall = time.time() - t0
    viol = res['result'] == 'violation'
    cov = {
        'states': res['states'],
        'transitions': res['transitions'],
        'traces_validated_against_impl': res['executions'],
        'samples': res['samples'] or [res['description'] or res['message']],
        'exhaustive': (not res['capped']) and not viol,
        'comparisons_with_reference': res['checks'],
        'states_revisited_and_pruned': res['pruned'],
        'longest_choice_sequence': res['max_depth'],
        'state_table_saturated': res['states_saturated'],
        'bounds': spec.get('bounds', {}).get(tier, spec.get('bounds', {}).get('quick', '')) if isinstance(spec.get('bounds'), dict) else spec.get('bounds', ''),
        'how_bound_to_code': 'every execution runs the real code compiled from /repo in this run and is compared with the reference model step by step',
        'build_s': round(t_build, 1),
        'workers': res['workers'],
    }
    if known:
        cov['known_findings_met'] = res['known']
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': spec.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': 1 if viol else 0}
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    for s, what in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    print('%s %s: %s - %d executions, %d transitions, %d distinct states, %d comparisons%s, %.1f s (build %.1f s)' % (
        prop, tier, res['result'], res['executions'], res['transitions'], res['states'], res['checks'], ' [CAPPED]' if res['capped'] else '', wall, t_build))
    if viol:
        print('signature: %s' % res['signature'])
        print('what: %s' % res['message'])
        print('execution: %s' % res['description'])
        print('VIOLATION property=%s replay=%s' % (prop, rfile))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
