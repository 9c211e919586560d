// The TypeScript compiler erases the types (as for the published package); the syntax tree of what is left goes to standard output.
const N = '/opt/veriftools/node/node_modules/';
const ts = require(N + 'typescript'), acorn = require(N + 'acorn'), fs = require('fs');
const src = fs.readFileSync(process.argv[2], 'utf8');
const r = ts.transpileModule(src, { reportDiagnostics: true, compilerOptions: { target: 'es2022', module: 'es2020', removeComments: true } });
const bad = (r.diagnostics || []).map(d => ts.flattenDiagnosticMessageText(d.messageText, ' '));
if (process.argv[3] === '--js') { process.stdout.write(r.outputText); process.exit(0); }
if (bad.length) { process.stdout.write(JSON.stringify({ error: bad[0] })); process.exit(0); }
process.stdout.write(JSON.stringify({ ast: acorn.parse(r.outputText, { ecmaVersion: 'latest', sourceType: 'module', locations: true }), js: r.outputText }, (k, v) => typeof v === 'bigint' ? String(v) : v));
