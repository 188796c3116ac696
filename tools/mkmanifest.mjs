// Writes MANIFEST.json from the checks that exist.
import fs from 'node:fs'; import path from 'node:path'; import { fileURLToPath } from 'node:url';
const V = path.dirname(path.dirname(fileURLToPath(import.meta.url)));
const { NOTES, NOT } = await import(path.join(V, 'tools/notes.mjs'));
const props = fs.readFileSync(path.join(V, 'properties.jsonl'), 'utf8').trim().split('\n').map((l) => JSON.parse(l).id);
const checks = []; const na = [];
for (const id of props) {
  if (!fs.existsSync(path.join(V, 'checks', `${id}.mjs`))) { na.push({ property: id, reason: NOT[id] ?? 'No check has been built for this property yet.' }); continue; }
  const { technique, level = 'exploration', note } = NOTES[id];
  checks.push({ property: id, quick_cmd: `node engine/main.mjs ${id} --tier quick`, thorough_cmd: `node engine/main.mjs ${id} --tier thorough`, evidence_file: `evidence/${id}.json`, technique, level, level_note: note });
}
fs.writeFileSync(path.join(V, 'MANIFEST.json'), JSON.stringify({ version: 1, setup_cmd: 'bin/setup.sh', checks, not_applicable: na, notes: 'No hooks in /repo: the checks run the unmodified canister wasm on a replica simulation (sim/ic.mjs). See DESIGN.md.' }, null, 1) + '\n');
console.log(checks.length, 'checks;', na.map((x) => x.property).join(' '), 'not claimed');
