// Random histories of watcher.ts against a stand-in of the Node bridge.
// usage: node node_ts.cjs <watcher.ts> <seed> <seconds>     (cwd: a scratch directory)
const fs = require('fs'), path = require('path'), Module = require('module'), { execFileSync } = require('child_process'), { pathToFileURL } = require('url');
const [SRC, SEED, SECS] = [process.argv[2], Number(process.argv[3]), Number(process.argv[4])];
fs.mkdirSync('build/Release', { recursive: true });
fs.writeFileSync('build/package.json', '{"type":"module"}');
fs.writeFileSync('build/Release/watcher-napi.node', '');
fs.writeFileSync('build/watcher.js', execFileSync(process.execPath, [path.join(__dirname, '..', 'vp', 'ts', 'parse.cjs'), SRC, '--js']));
let s = (SEED * 2654435761 + 12345) >>> 0;
const rnd = n => { s = (Math.imul(s, 1664525) + 1013904223) >>> 0; return Math.floor(s / 4294967296 * n); };
const pick = a => a[rnd(a.length)];
let W, log, refuse;
Module._extensions['.node'] = m => { m.exports = { watch: (...a) => {
  log.push('bridge: watch ' + JSON.stringify(a[0]));
  if (refuse) { refuse = false; throw new Error('Failed to open watcher'); }
  const w = { args: a, open: true, closes: 0, clean: pick([true, true, false]) };
  W.push(w);
  return { close: () => { if (!w.open) return false; w.open = false; w.closes++; return w.clean; } };
} }; };
const E = ['rename', 'modify', 'create', 'destroy', 'owner', 'other'], P = ['dir', 'file', 'hardLink', 'symLink', 'watcher', 'other'];
const NAMES = ['/a', '/a b', '/q"', '/b\\', '/\n\u0001', '/\u00fc\u4e2d\u{1f600}', '/' + 'x'.repeat(3000), 's/self/live@/', 'rename', '/null', '/undefined', '/\ufffd'];
const TIMES = [0, 1, -1, 1700000000123456789, 2 ** 31, 2 ** 53, -(2 ** 63), 9223372036854775807, 42];
class Fail extends Error {}
const need = (c, what) => { if (!c) throw new Fail(what); };
(async () => {
  const t0 = Date.now(); let n = 0, failures = 0;
  for (; Date.now() - t0 < SECS * 1000 && failures < 3 && n < 4000; n++) {
    W = []; log = []; refuse = false;
    try {
      const m = await import(pathToFileURL(path.resolve('build/watcher.js')).href + '?' + n);
      const ws = []; let got = [], last = null;
      for (let k = 3 + rnd(12); k > 0; k--) {
        const op = ws.length ? pick(['open', 'event', 'event', 'event', 'close', 'close']) : 'open';
        if (op === 'open') {
          if (ws.length > 3) continue;
          const p = pick(['.', '/tmp', '/\u00fc', '/' + 'y'.repeat(3000), '', 'a/']), i = W.length;
          refuse = rnd(6) === 0; const fail = refuse;
          log.push('watch ' + JSON.stringify(p.slice(0, 80)) + (fail ? ', refused' : ''));
          let r = null, err = null;
          try { r = m.watch(p, (...a) => got.push([i, a])); } catch (x) { err = x; }
          need(!err || fail, 'watch fails: ' + err);
          if (fail) { need(err, 'a refusal is not told'); refuse = false; need(W.length === i, 'opened'); continue; }
          need(W.length === i + 1, 'opened ' + (W.length - i) + ' watchers');
          need(W[i].args[0] === p, 'another path is opened: ' + JSON.stringify(W[i].args[0]));
          need(typeof W[i].args[1] === 'function' && r && typeof r.close === 'function', 'watch: callback or result');
          ws.push(r);
        } else if (op === 'event') {
          const i = rnd(ws.length);
          const e = last && rnd(4) === 0 ? last : { effectTime: pick(TIMES), pathName: pick(NAMES), associatedPathName: rnd(2) ? null : pick(NAMES), effectType: rnd(6), pathType: rnd(6) };
          last = e;
          log.push('event to ' + i + ': ' + JSON.stringify(e).slice(0, 300));
          got = [];
          try { W[i].args[1].call(undefined, { ...e }); } catch (x) { throw new Fail('telling an event fails: ' + x); }
          need(got.length === 1 && got[0][0] === i && got[0][1].length === 1, 'an event is told ' + got.length + ' times, or to another callback');
          const g = got[0][1][0], d = JSON.stringify(g);
          need(Object.is(g.effectTime, e.effectTime), 'time: ' + d); need(g.pathName === e.pathName, 'path name: ' + d); need(g.associatedPathName === e.associatedPathName, 'associated path: ' + d);
          need(g.effectType === E[e.effectType] && m.EffectType[E[e.effectType]] === g.effectType, 'effect type: ' + d + ' instead of ' + E[e.effectType]);
          need(g.pathType === P[e.pathType] && m.PathType[P[e.pathType]] === g.pathType, 'path type: ' + d + ' instead of ' + P[e.pathType]);
        } else {
          const i = rnd(ws.length), was = W[i].open;
          log.push('close ' + i + (W[i].clean ? '' : ' (not clean)'));
          let r; try { r = ws[i].close(); } catch (x) { throw new Fail('close fails: ' + x); }
          need(!W[i].open && W[i].closes === 1, 'the watcher is not closed');
          need(r === (was && W[i].clean), 'close gives ' + r + ' instead of ' + (was && W[i].clean));
        }
        W.forEach((w, i) => need(w.closes <= 1, 'closed twice'));
      }
    } catch (x) { failures++; console.log('== scenario ' + n + '\nFAIL ' + (x instanceof Fail ? x.message : 'unexpected ' + x) + '\n' + log.join('\n')); }
  }
  console.log('SCENARIOS ' + n);
})();
