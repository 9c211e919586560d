"""Replays on the real code: compiles replay/main.cpp against the headers of the current tree
and runs scenarios of the fake kernel against them (random ones, a stated number). Used to find
an input for a failed obligation, as the labelled bounded stand-in where the verifier gives no
answer, and in the thorough tier next to the proof."""
import os, subprocess, tempfile, shutil, time
from . import tree
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = ['-std=c++17', '-g', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr', '-fno-sanitize-recover=all', '-DFK_ASAN', '-w']

# driver of a property, and the folders of the repository its sources are found in
DRIVERS = {'C11': ('event', ()), 'C12': ('event', ()), 'C13': ('capi', ('watcher-c/include', 'watcher-c')), 'C14': ('cli', ('.',)),
           'C15': ('rust', ('watcher-c/include',)), 'C16': ('node', ('watcher-c/include', 'watcher-nodejs/lib', 'watcher-nodejs'))}
WHAT = {'main': 'scenarios of the fake kernel', 'event': 'events', 'capi': 'sequences of opening, events and closing', 'cli': 'command lines', 'node': 'sequences of opening, events, faults and closing', 'rust': 'sequences of opening, events and closing'}
INCLUDES = {'node': ['-I/usr/include/node']}

# drivers in the language of the binding: <script> <real source> <stand-in of what it calls> <seed> <seconds>
SCRIPTS = {'C17': dict(name='python', what='histories of watches', source='watcher-py/watcher/watcher.py', cmd=['/usr/bin/python3'], driver='python.py'),
           'C20': dict(name='node_ts', what='histories of watches', source='watcher-nodejs/lib/watcher.ts', cmd=['node'], driver='node_ts.cjs')}
def run_script(prop, tier, seed, budget):
    s = SCRIPTS[prop]
    d = tempfile.mkdtemp(prefix='vp-replay-')
    t0 = time.time(); failures, notes, total = [], [], 0
    try:
        args = []
        if s['name'] == 'python':
            lib = os.path.join(d, 'fake.so')
            r = subprocess.run(['gcc', '-w', '-shared', '-fPIC', '-I' + os.path.join(tree.REPO, 'watcher-c/include'), os.path.join(HERE, 'replay', 'fakelib.c'), '-o', lib], capture_output=True, text=True)
            if r.returncode: notes.append('the stand-in does not compile: ' + r.stderr[:300])
            args = [lib]
        secs = max(10, min(30 if tier == 'quick' else 180, budget - 30))
        try:
            r = subprocess.run(s['cmd'] + [os.path.join(HERE, 'replay', s['driver']), os.path.join(tree.REPO, s['source'])] + args + [str(seed), str(secs)], capture_output=True, timeout=secs + 60, cwd=d)
            out = r.stdout.decode('utf-8', 'replace')
            if 'SCENARIOS ' not in out: notes.append('the scenarios ended early: ' + r.stderr.decode('utf-8', 'replace')[-300:])
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b'').decode('utf-8', 'replace'); notes.append('scenarios ran out of time')
        for p in out.split('== scenario ')[1:]:
            body = p.split('SCENARIOS ')[0].strip()
            head = next((l[5:] for l in body.split('\n') if l.startswith('FAIL ')), 'fails')
            failures.append('%s (scenario %s)\n%s' % (head, body.split('\n')[0], body))
        if 'SCENARIOS ' in out: total = int(out.rsplit('SCENARIOS ', 1)[1].split()[0])
    finally: shutil.rmtree(d, ignore_errors=True)
    return dict(failures=failures, summary='%d random %s (seed %s) against %s, %d failing' % (total, s['what'], seed, s['source'], len(failures)) + ''.join('; ' + n for n in notes), scenarios=total, seed=seed, wall_s=round(time.time() - t0, 1))

def build(out, inc, prop):
    d, dirs = DRIVERS.get(prop, ('main', ()))
    extra = []
    if d == 'rust':
        try: tree.rust_ir(out + '.a')
        except tree.Broken as e: return str(e)
        extra = [out + '.a']
    r = subprocess.run([tree.CLANG] + FLAGS + ['-I' + inc] + ['-I' + os.path.join(tree.REPO, x) for x in dirs] + INCLUDES.get(d, []) + [os.path.join(HERE, 'replay', d + '.cpp')] + extra + ['-o', out, '-ldl', '-pthread'], capture_output=True, text=True)
    return None if r.returncode == 0 else '\n'.join(l for l in (r.stderr or '').split('\n') if 'error' in l or 'undefined' in l)[:600]

def run(prop, fails, tier, seed, budget):
    if prop in SCRIPTS: return run_script(prop, tier, seed, budget)
    d = tempfile.mkdtemp(prefix='vp-replay-')
    os.chmod(d, 0o755)
    t0 = time.time()
    failures, total, notes = [], 0, []
    try:
        try: same = tree.same_trees({'event': 'event', 'capi': 'capi', 'cli': 'cli', 'node': 'node', 'rust': 'rust'}.get(DRIVERS.get(prop, ('main',))[0], 'core'))
        except Exception: same = False
        trees = tree.TREES[:1] if same else tree.TREES
        procs = []
        for name, inc in trees:
            exe = os.path.join(d, name)
            err = build(exe, os.path.join(tree.REPO, inc), prop)
            if err is not None: notes.append('%s: the scenarios do not compile: %s' % (inc, err))
            else: procs.append((inc, exe))
        want = 45 if tier == 'quick' else 240
        secs = max(10, min(want, budget - (time.time() - t0) - 20) / max(1, len(procs)))
        env = dict(os.environ, VP_SCRATCH=d, ASAN_OPTIONS='detect_leaks=0:exitcode=77:detect_stack_use_after_return=1:handle_abort=1:abort_on_error=0:max_free_fill_size=4096:free_fill_byte=90')
        for inc, exe in procs:
            try:
                r = subprocess.run([exe, prop, str(seed), str(secs)], capture_output=True, env=env, timeout=secs + 90, cwd=d)
                out = r.stdout.decode('utf-8', 'replace')
            except subprocess.TimeoutExpired as e:
                out = (e.stdout or b'').decode('utf-8', 'replace'); notes.append('%s: scenarios ran out of time' % inc)
            parts = out.split('== scenario ')
            for p in parts[1:]:
                body = p.split('SCENARIOS ')[0].strip()
                lines = body.split('\n')
                head = next((l[5:] for l in lines if l.startswith('FAIL ')), None) or next((l for l in lines if 'runtime error' in l or 'ERROR: AddressSanitizer' in l or 'terminate called' in l or 'does not finish' in l), lines[1] if len(lines) > 1 else 'crash')
                failures.append('%s (%s, scenario %s)\n%s' % (head.strip(), inc, lines[0], body))
            if 'SCENARIOS ' in out: total += int(out.rsplit('SCENARIOS ', 1)[1].split()[0])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    s = '%d random %s (seed %s) against %s with the address and undefined-behaviour checks, %d failing' % (total, WHAT[DRIVERS.get(prop, ('main',))[0]], seed, ' and '.join(i for _, i in trees), len(failures))
    return dict(failures=failures, summary=s + (''.join('; ' + n for n in notes)), scenarios=total, seed=seed, wall_s=round(time.time() - t0, 1))
