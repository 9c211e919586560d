"""Random histories of watcher-py against a stand-in of the C interface (fakelib.c).
usage: python.py <watcher.py> <fakelib.so> <seed> <seconds>"""
import sys
sys.dont_write_bytecode = True
import os, random, time, json, gc, ctypes, importlib.util, traceback
SRC, LIB, SEED, SECS = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4])
NAMES = [b'/tmp/a', b'/a b', b'/q"uote', b'/back\\slash', b'/line\nbreak', b'/tab\t\x01', '/\u00fc\u00f1\u4e2d\U0001f600'.encode(), b'/\xff\xfe', b'/caf\xe9/x', b'/' + b'x' * 4000, b'x', b'/\xed\xa0\x80', b'/%s{}', b"/'", b'/null']
PATHS = ['.', '/tmp', '/\u00fc\u4e2d', '/' + 'y' * 4000, 'a b', '/q"\\', '', 'tail/']
BAD = ['/tmp\0/x', '\0', '/a\0']
TIMES = [0, 1, -1, 2 ** 63 - 1, -2 ** 63, 1700000000123456789, 2 ** 31, 2 ** 32, -2 ** 31 - 1]
E = ('rename', 'modify', 'create', 'destroy', 'owner', 'other')
P = ('dir', 'file', 'hard_link', 'sym_link', 'watcher', 'other')

class Fail(Exception): pass
def need(c, what):
    if not c: raise Fail(what)

def load(mode, log):
    real, exists, lib = ctypes.CDLL, os.path.exists, None
    if mode == 'library missing': os.path.exists = lambda p: False if 'watcher' in str(p) and '.so' in str(p) or '.mesonpy' in str(p) else exists(p)
    else: os.path.exists = lambda p: True if '.mesonpy' in str(p) else exists(p)
    os.path.isfile = os.path.exists
    def cdll(name, *a, **k):
        if 'watcher' in str(name):
            log.append('the library is loaded')
            if mode == 'library broken': raise OSError('cannot open shared object file')
            return real(LIB, *a, **k)
        return real(name, *a, **k)
    ctypes.CDLL = cdll
    ctypes.cdll.LoadLibrary = cdll
    spec = importlib.util.spec_from_file_location('watcher', SRC)
    m = importlib.util.module_from_spec(spec); sys.modules['watcher'] = m
    spec.loader.exec_module(m)
    fk = real(LIB)
    fk.fk_path.restype = ctypes.c_char_p
    fk.fk_event.argtypes = [ctypes.c_longlong, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_int, ctypes.c_int]
    return m, fk

def scenario(rnd, log):
    mode = rnd.choice(['ok'] * 10 + ['library missing', 'library broken'])
    unraised = []
    sys.unraisablehook = lambda u: unraised.append('%s: %s' % (type(u.exc_value).__name__, u.exc_value))
    m, fk = load(mode, log)
    watches, got = [], []                      # [watch, index in the stand-in, open]
    pending = [None]
    def event():
        if pending[0] and rnd.random() < .3: return        # the same again
        t, n = rnd.choice(TIMES), rnd.choice(NAMES)
        a = rnd.choice([None, None, b''] + NAMES)
        e, p = rnd.randrange(6), rnd.randrange(6)
        pending[0] = (t, n, a, e, p)
        fk.fk_event(t, n, a, e, p)
        log.append('event: time %d name %r associated %r effect %s kind %s' % (t, n, a, E[e], P[p]))
    def judge(idx, expect):
        need(not unraised, 'telling an event fails: %s' % (unraised or [''])[0])
        need(len(got) == expect, 'an event is told %d times instead of %d' % (len(got), expect))
        for who, ev in got:
            t, n, a, e, p = pending[0]
            need(who == idx, 'an event of one watch is told to the callback of another')
            need(ev.effect_time == t, 'event: time %r instead of %d' % (ev.effect_time, t))
            need(isinstance(ev.path_name, str), 'event: the name is no text')
            def name(b, x, what):
                try: w = b.decode('utf-8')
                except UnicodeDecodeError: return
                need(x == w, 'event: %s %r instead of %r' % (what, x, w))
            name(n, ev.path_name, 'path name')
            if a is None: need(ev.associated_path_name is None, 'event: an associated path %r where there is none' % ev.associated_path_name)
            elif not a: need(ev.associated_path_name in (None, ''), 'event: associated path')
            else:
                need(ev.associated_path_name is not None, 'event: the associated path is not told')
                name(a, ev.associated_path_name, 'associated path')
            need(ev.effect_type is getattr(m.EffectType, E[e].upper()), 'event: effect %r instead of %s' % (ev.effect_type, E[e]))
            need(ev.path_type is getattr(m.PathType, P[p].upper()), 'event: kind %r instead of %s' % (ev.path_type, P[p]))
            j = ev.to_json()
            try: d = json.loads(j)
            except ValueError as x: raise Fail('json: not well formed: %s' % j[:300])
            need(isinstance(d, dict) and d.get('effect_time') == t and d.get('path_name') == ev.path_name and (d.get('associated_path_name', 0) or None) == (ev.associated_path_name or None)
                 and d.get('effect_type') == E[e] and d.get('path_type') == P[p], 'json: %s' % j[:300])
        got.clear()
    def closes(): return sum(fk.fk_closes(i) for i in range(fk.fk_count()))
    def check():
        need(not unraised, 'dropping or closing fails: %s' % (unraised or [''])[0])
        need(fk.fk_bad() == 0, 'the C interface is asked to close a watcher which is not open, or another value')
        for x in watches: need(bool(fk.fk_open(x[1])) == x[2], 'a watch is %s' % ('closed while in use' if x[2] else 'not closed'))
        need(fk.fk_count() == made[0] and closes() == made[0] - sum(fk.fk_open(i) for i in range(fk.fk_count())), 'opened or closed more often than asked')
    made = [0]
    for _ in range(rnd.randrange(2, 14)):
        op = rnd.choice(['open', 'event', 'event', 'close', 'enter', 'exit', 'del', 'with'] if watches else ['open', 'open', 'with'])
        if op in ('open', 'with'):
            if fk.fk_count() > 12: continue
            fail, evo, evc = rnd.random() < .15, rnd.random() < .3, rnd.random() < .3
            bad = rnd.random() < .15
            path = rnd.choice(BAD if bad else PATHS)
            n0 = fk.fk_count()
            fk.fk_plan(int(fail), int(evo), int(evc))
            log.append('open %r%s%s%s' % (path, ', refused' if fail else '', ', an event comes while opening' if evo else '', ', an event will come while closing' if evc else ''))
            event()
            idx = n0
            w = None
            try:
                w = m.Watch(path, lambda e, idx=idx: got.append((idx, e)))
            except Exception as x: log.append('raises %s: %s' % (type(x).__name__, x)); x = None
            gc.collect()
            if fk.fk_count() > n0: need(fk.fk_path(n0) == path.split('\0')[0].encode() and '\0' not in path, 'another path is opened: %r' % fk.fk_path(n0)[:200])
            if w is None:
                need(bad or fail or mode != 'ok', 'a watch on %r cannot be made' % path)
                if fk.fk_count() > n0: need(not fk.fk_open(n0), 'left open after a failure'); made[0] += 1
                got.clear()
                check(); continue
            made[0] += 1
            need(fk.fk_count() == n0 + 1, 'opened %d watchers' % (fk.fk_count() - n0))
            judge(n0, 1 if evo else 0)
            if op == 'with':
                log.append('with')
                boom = rnd.random() < .3; seen = False
                try:
                    with w as v:
                        need(v is w, 'with gives something else')
                        gc.collect(); event(); fk.fk_emit(n0); judge(n0, 1)
                        event()
                        if boom: raise KeyError('mine')
                except KeyError: seen = True
                need(seen == boom, 'an exception is swallowed')
                judge(n0, 1 if evc else 0)
                watches.append([w, n0, False])
            else: watches.append([w, n0, True])
            w = v = None
        else:
            x = rnd.choice(watches)
            if op == 'event':
                if not x[2]: continue
                gc.collect()
                event(); fk.fk_emit(x[1]); judge(x[1], 1)
            elif op == 'enter':
                log.append('enter %d' % x[1]); need(x[0].__enter__() is x[0], 'enter gives something else')
            else:
                log.append('%s %d' % (op, x[1]))
                fk.fk_plan(rnd.choice([0, 0, 2]), 0, 1); event()
                was = x[2]
                if op == 'close': x[0].close()
                elif op == 'exit': need(not x[0].__exit__(None, None, None), 'exit swallows')
                else: watches.remove(x); x[0] = None; gc.collect()
                x[2] = False
                judge(x[1], 1 if was else 0)
                if op == 'del': need(not fk.fk_open(x[1]), 'a dropped watch stays open')
        check()
    x = w = v = None; watches.clear(); gc.collect()
    for i in range(fk.fk_count()): need(not fk.fk_open(i), 'a dropped watch stays open')
    need(not unraised, 'dropping fails: %s' % (unraised or [''])[0])
    need(fk.fk_bad() == 0, 'the C interface is asked to close a watcher which is not open, or another value')

def main():
    t0, n, failures = time.time(), 0, 0
    while time.time() - t0 < SECS and failures < 3 and n < 6000:
        n += 1
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r); log = []; msg = ''
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            try: scenario(random.Random(SEED * 1000003 + n), log)
            except Fail as x: msg = 'FAIL ' + str(x)
            except BaseException as x: msg = 'FAIL unexpected %s: %s (line %s)' % (type(x).__name__, x, traceback.extract_tb(x.__traceback__)[-1].lineno)
            os.write(w, ((msg + '\n' + '\n'.join(log))[:60000] if msg else '').encode('utf-8', 'replace'))
            os._exit(0)
        os.close(w)
        out = b''
        while True:
            c = os.read(r, 65536)
            if not c: break
            out += c
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if st: out = b'FAIL the process ends with signal %d\n' % (st & 127) + out
        if out:
            failures += 1
            print('== scenario %d' % n); print(out.decode('utf-8', 'replace')); sys.stdout.flush()
    print('SCENARIOS %d' % n)
main()
