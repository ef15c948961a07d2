// node tools/j.mjs FILE|-e CODE [variant]: run one script on the real code (print() logs) and in node
import { runVrat, buildVariant, encodeCase, nodeRef } from '../lib/explore.mjs';
import { P0 } from '../lib/prelude.mjs';
import fs from 'node:fs';
let [a, b, v] = process.argv.slice(2); let src;
if (a === '-e') src = b; else { src = fs.readFileSync(a, 'utf8'); v = b; }
const pre = P0 + 'var print=function(...a){__log(a.map(x=>typeof x==="string"?x:__S(x)).join(" "))};';
const kind = process.env.KIND || 's';
const bin = buildVariant(v || 'plain');
fs.writeFileSync('/tmp/.j', Buffer.concat([Buffer.from(`prelude ${Buffer.byteLength(pre)}\n${pre}\n`), encodeCase({ kind, src })]));
const r = await runVrat(bin, '/tmp/.j', 1, { timeoutMs: 10000, memMB: v === 'asan' ? 0 : 3000 });
console.log('got  ' + r[0]);
if (kind !== 'm') console.log('node ' + await nodeRef.run({ kind, src }, { prelude: pre, async: true }));
process.exit(0);
