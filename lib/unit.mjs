// one unit of a suite that plans its own work: unit.mjs ID UNIT TIER DIR VRATS
import { VERIF } from './explore.mjs';
process.on('unhandledRejection', () => {});
const [id, unit, tier, dir, vr] = process.argv.slice(2);
let r;
try { r = await (await import(`${VERIF}/suites/${id}.mjs`)).shard(JSON.parse(unit), tier, dir, JSON.parse(vr)); } catch (e) { console.error(e); process.exit(3); }
process.send(r, () => process.exit(0));
