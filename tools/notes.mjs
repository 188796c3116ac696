const T = 'The check runs the canister wasm built from the current tree on a deterministic replica simulation; it trusts that simulation and the reference model (engine/model.mjs), and covers the histories generated, not all.';
const MODEL = 'stateful model-based property testing: generated call histories against a reference model';
export const NOTES = {
  P01: { technique: MODEL + ', all ownership views compared', note: T },
  P02: { technique: MODEL + ', mint answers, ids, limits', note: T },
  P03: { technique: MODEL + ', icrc7_transfer authorisation', note: T },
  P04: { technique: MODEL + ', burns and burned tokens', note: T },
  P05: { technique: MODEL + ', icrc37_transfer_from authorisation, expiry instants included', note: T },
  P06: { technique: MODEL + ', approval queries against the model of live approvals', note: T },
  P07: { technique: MODEL + ', approvals given, replaced and revoked', note: T },
  P08: { technique: MODEL + ', every block predicted, hash chain checked', note: T },
  P09: { technique: 'stateful property testing with injected inter-canister faults: archiving schedules, the log compared with the record of all blocks', level: 'fault_enumeration', note: T + ' Three known findings lie in the log library. One archive only: filling it takes gigabytes.' },
  P10: { technique: MODEL + ', every guarded method under every permission state', note: T },
  P11: { technique: MODEL + ', metadata round trip of generated values', note: T },
  P12: { technique: MODEL + ', settings read back and obeyed', note: T },
  P13: { technique: 'property testing of paged and batched queries against the model, in generated states', note: T },
  P14: { technique: 'differential property testing: the same generated history with and without upgrades, all answers compared', note: T },
  P15: { technique: MODEL + ' with injected inter-canister faults, files read back through the storage canister', level: 'fault_enumeration', note: T },
  P16: { technique: MODEL + '; every HTTP answer parsed, its certificate tree hashed and compared with the certified data', note: T },
  P17: { technique: 'stateful property testing over message schedules and injected faults', level: 'fault_enumeration', note: T },
  P18: { technique: MODEL + ', call times at nanosecond precision around the window', note: T },
  P19: { technique: MODEL + ', creation times at the window boundaries and repeated calls', note: T },
  P20: { technique: 'metamorphic property testing: every observable answer compared around each failing call; histories with and without their failing items', note: T },
  P21: { technique: 'property testing of the index against a model computed from the ledger log', note: T },
  P22: { technique: 'stateful property testing over schedules, faults and upgrades of ledger and index', level: 'fault_enumeration', note: T },
  P23: { technique: 'generated and mutated argument fuzzing with an exact oracle for well-formed calls', note: T },
  P24: { technique: 'differential property testing: a batch against its items one by one from the same state', note: T },
  P25: { technique: 'differential property testing: the whole tool, run against the simulated ledger, against the calls made directly; generated commands, files and lost calls', note: 'The tool is built from the current tree with a stand-in for ic-agent that carries its calls to the ledger simulation; keys, signatures and the network are outside. It covers the commands generated, not all.' },
  P26: { technique: 'stateful property testing with injected faults: on copies of generated states, balances are drained, the ledger upgraded, funding calls failed and strangers let loose', level: 'fault_enumeration', note: T + ' The cycles a canister burns are not simulated: balances are set.' },
  P27: { technique: 'stateful property testing: what the ledger says of itself and generated lists of ranges, against the log of the model', note: T + ' One known finding lies in the log library (the tip certificate).' },
  P28: { technique: 'fuzzing with type-directed extreme arguments, varied ordinary calls and mutated bytes, on copies of generated states', note: T + ' The limit on instructions of the platform is not simulated.' },
};
export const NOT = {};
