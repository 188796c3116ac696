// Typed client for the index_icrc7 canister.
import { T, encode, learn } from './candid.mjs';
import { Account, VERSION, out } from './core.mjs';
const Version = T.rec({ major: T.nat32, minor: T.nat32, patch: T.nat32 });
const Init = T.rec({ test_mode: T.bool, authorized_principals: T.vec(T.principal), version: Version, ledger_canister_id: T.principal, commit_hash: T.text });
const Args = T.variant({ Init, Upgrade: T.rec({ version: Version, commit_hash: T.text }) });
const Filter = T.variant({ Account, TokenId: T.nat, BlockType: T.text });
export const GetBlocks = T.rec({ start: T.nat64, length: T.nat64, filters: T.vec(Filter), sort_by: T.opt(T.variant({ Ascending: T.null, Descending: T.null })) });
learn('total', 'blocks', 'last_block_id', 'ledger_id', 'id', 'block');
export const getBlocksArg = (a) => encode([GetBlocks], [a]);
export class Index {
  constructor(r, id) { this.r = r; this.id = id; }
  static install(r, mod, ledger, installer) {
    const c = r.create([installer]);
    const res = r.install(c, mod, encode([Args], [{ Init: { test_mode: true, authorized_principals: [], version: VERSION, ledger_canister_id: ledger, commit_hash: 'c0ffee' } }]), installer);
    if (res.trap !== undefined) return { trap: res.trap };
    r.settle();
    return new Index(r, c.id);
  }
  upgrade(mod, installer) { return this.r.upgrade(this.r.get(this.id), mod, encode([Args], [{ Upgrade: { version: VERSION, commit_hash: 'beef' } }]), installer); }
  status(by) { return out(this.r.query(this.id, by, 'status', encode([], []))); }
  ledgerId(by) { return out(this.r.query(this.id, by, 'ledger_id', encode([], []))); }
  getBlocks(by, a) { return out(this.r.update(this.id, by, 'get_blocks', getBlocksArg(a))); }
  submit(by, a) { return this.r.submit(this.id, by, 'get_blocks', getBlocksArg(a)); }
}
