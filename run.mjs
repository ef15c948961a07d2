// node run.mjs PROPERTY [quick|thorough]
import { exploreSuite, VERIF } from './lib/explore.mjs';
const id = process.argv[2], tier = process.argv[3] || process.env.VERIF_TIER || 'quick';
try {
  const mod = await import(`${VERIF}/suites/${id}.mjs`);
  process.exitCode = mod.main ? await mod.main(tier) : await exploreSuite(mod.default, tier);
} catch (e) { console.error(e); process.exitCode = 2; }
