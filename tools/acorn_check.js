// Development aid: validates generated expectations against acorn (ES2018, module).
// usage: harness dump ID N | node --experimental-vm-modules --no-warnings acorn_check.js ID
const acorn = require('/opt/veriftools/node/node_modules/acorn');
const vm = require('vm');
const v8ok = src => { try { new vm.SourceTextModule(src); return true; } catch (e) { return false; } };
const rl = require('readline').createInterface({input: process.stdin});
const seen = new Map(); let n = 0, bad = 0, und = 0;
function ok(src) { try { acorn.parse(src, {ecmaVersion: 2018, sourceType: 'module'}); return null; } catch (e) { return e.message; } }
rl.on('line', l => {
  const c = JSON.parse(l); n++;
  let want = null, src = null;
  if (c.kind === 'accept' || c.kind === 'stream') { want = true; src = c.src; }
  else if (c.kind === 'reject') { want = false; src = c.src; }
  else if (c.kind === 'robust') { und++; return; }
  else return;
  const r = ok(src);
  if (want && r !== null && v8ok(src)) return; // acorn guesses regular expressions from context
  if ((r === null) !== want) {
    bad++;
    const k = want ? r.replace(/\(.*/, '').replace(/'[^']*'/, "'_'") : 'ACCEPTED ' + c.why.replace(/\d+/g, 'N');
    const o = seen.get(k);
    if (!o || src.length < o.src.length) seen.set(k, {src, n: (o ? o.n : 0) + 1, r}); else o.n++;
  }
});
rl.on('close', () => {
  console.log(`${n} cases, ${bad} disagree, ${und} undecided`);
  for (const [k, v] of seen) console.log(v.n, k, '|', v.r, '|', JSON.stringify(v.src).slice(0, 400));
});
