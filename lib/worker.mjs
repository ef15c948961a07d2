import { runShard, VERIF } from './explore.mjs';
process.on('unhandledRejection', () => {});
process.on('uncaughtException', () => {}); // a case whose promise capability throws inside a job; errors of the machinery end the worker below
const [id, tier, i, n, dir, vr] = process.argv.slice(2);
let r;
try {
const suite = (await import(`${VERIF}/suites/${id}.mjs`)).default;
r = await runShard(suite, +i, +n, tier, JSON.parse(vr), dir);
} catch (e) { console.error(e); process.exit(3); }
process.send(r, () => process.exit(0));
