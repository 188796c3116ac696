// Typed client for the core_nft canister.
import { T, encode, decode, learn } from './candid.mjs';

export const Account = T.rec({ owner: T.principal, subaccount: T.opt(T.blob) });
export const Value = T.variant({ Blob: T.blob, Text: T.text, Nat: T.nat, Int: T.int, Array: T.vec(T.ref(() => Value)), Map: T.vec(T.tuple(T.text, T.ref(() => Value))) });
const Meta = T.vec(T.tuple(T.text, Value));
const Memo = T.opt(T.blob);
export const PERMS = ['Minting', 'ManageAuthorities', 'UpdateMetadata', 'UpdateCollectionMetadata', 'ReadUploads', 'UpdateUploads'];
const Permission = T.variant(Object.fromEntries(PERMS.map((p) => [p, T.null])));
const Version = T.rec({ major: T.nat32, minor: T.nat32, patch: T.nat32 });
const optNat = T.opt(T.nat);
export const SETTINGS = ['description', 'symbol', 'name', 'logo', 'supply_cap', 'max_query_batch_size', 'max_update_batch_size', 'max_take_value', 'default_take_value', 'max_memo_size', 'atomic_batch_transfers', 'tx_window', 'permitted_drift', 'max_canister_storage_threshold'];
const settingT = (s) => (['description', 'logo', 'symbol', 'name'].includes(s) ? T.opt(T.text) : s === 'atomic_batch_transfers' ? T.opt(T.bool) : optNat);
const InitArgs = T.rec({
  test_mode: T.bool, version: Version, commit_hash: T.text,
  permissions: T.rec({ user_permissions: T.vec(T.tuple(T.principal, T.vec(Permission))) }),
  ...Object.fromEntries(SETTINGS.map((s) => [s, settingT(s)])), symbol: T.text, name: T.text,
  collection_metadata: T.vec(T.tuple(T.text, Value)),
  approval_init: T.rec({ max_approvals_per_token_or_collection: optNat, max_revoke_approvals: optNat }),
});
const Upgrade = T.rec({ version: Version, commit_hash: T.text });
const Args = T.variant({ Init: InitArgs, Upgrade });
const ApprovalInfo = T.rec({ spender: Account, from_subaccount: T.opt(T.blob), expires_at: T.opt(T.nat64), memo: Memo, created_at_time: T.nat64 });
const PermArg = T.rec({ principal: T.principal, permission: Permission });
const CustomValue = T.ref(() => Value);

// method -> argument types
export const SIG = {
  icrc7_transfer: [T.vec(T.rec({ to: Account, token_id: T.nat, memo: Memo, from_subaccount: T.opt(T.blob), created_at_time: T.opt(T.nat64) }))],
  icrc37_approve_tokens: [T.vec(T.rec({ token_id: T.nat, approval_info: ApprovalInfo }))],
  icrc37_approve_collection: [T.vec(T.rec({ approval_info: ApprovalInfo }))],
  icrc37_revoke_token_approvals: [T.vec(T.rec({ spender: T.opt(Account), from_subaccount: T.opt(T.blob), token_id: T.nat, memo: Memo, created_at_time: T.opt(T.nat64) }))],
  icrc37_revoke_collection_approvals: [T.vec(T.rec({ spender: T.opt(Account), from_subaccount: T.opt(T.blob), memo: Memo, created_at_time: T.opt(T.nat64) }))],
  icrc37_transfer_from: [T.vec(T.rec({ spender_subaccount: T.opt(T.blob), from: Account, to: Account, token_id: T.nat, memo: Memo, created_at_time: T.opt(T.nat64) }))],
  mint: [T.rec({ mint_requests: T.vec(T.rec({ token_owner: Account, memo: Memo, metadata: Meta })) })],
  burn_nft: [T.nat],
  update_nft_metadata: [T.rec({ token_id: T.nat, metadata: Meta })],
  update_collection_metadata: [T.rec({ ...Object.fromEntries(SETTINGS.map((s) => [s, settingT(s)])), collection_metadata: T.opt(T.vec(T.tuple(T.text, CustomValue))) })],
  grant_permission: [PermArg], revoke_permission: [PermArg],
  init_upload: [T.rec({ file_path: T.text, file_hash: T.text, file_size: T.nat64, chunk_size: T.opt(T.nat64) })],
  store_chunk: [T.rec({ file_path: T.text, chunk_id: T.nat, chunk_data: T.blob })],
  finalize_upload: [T.rec({ file_path: T.text })],
  cancel_upload: [T.rec({ file_path: T.text })],
  // queries
  get_user_permissions: [T.rec({ principal: T.principal })], has_permission: [PermArg],
  get_upload_status: [T.text], get_all_uploads: [optNat, optNat], get_all_storage_subcanisters: [],
  icrc7_owner_of: [T.vec(T.nat)], icrc7_balance_of: [T.vec(Account)], icrc7_token_metadata: [T.vec(T.nat)],
  icrc7_tokens: [optNat, optNat], icrc7_tokens_of: [Account, optNat, optNat],
  icrc7_collection_metadata: [], icrc7_symbol: [], icrc7_name: [], icrc7_description: [], icrc7_logo: [], icrc7_total_supply: [], icrc7_supply_cap: [],
  icrc7_max_query_batch_size: [], icrc7_max_update_batch_size: [], icrc7_default_take_value: [], icrc7_max_take_value: [], icrc7_max_memo_size: [],
  icrc7_atomic_batch_transfers: [], icrc7_tx_window: [], icrc7_permitted_drift: [],
  icrc37_get_token_approvals: [T.nat, T.opt(T.rec({ token_id: T.nat, approval_info: ApprovalInfo })), optNat],
  icrc37_get_collection_approvals: [Account, T.opt(T.rec({ approval_info: ApprovalInfo })), optNat],
  icrc37_is_approved: [T.vec(T.rec({ spender: Account, from_subaccount: T.opt(T.blob), token_id: T.nat }))],
  icrc37_metadata: [], icrc37_max_approvals_per_token_or_collection: [], icrc37_max_revoke_approvals: [],
  icrc3_get_archives: [T.null], icrc3_get_blocks: [T.vec(T.rec({ start: T.nat, length: T.nat }))],
  icrc3_get_properties: [T.null], icrc3_get_tip_certificate: [T.null], icrc3_supported_block_types: [T.null],
  icrc10_supported_standards: [T.null],
  icrc21_canister_call_consent_message: [T.rec({ method: T.text, arg: T.blob, user_preferences: T.rec({ metadata: T.rec({ language: T.text, utc_offset_minutes: T.opt(T.int16) }), device_spec: T.opt(T.variant({ GenericDisplay: T.null, FieldsDisplay: T.null, LineDisplay: T.rec({ characters_per_line: T.nat16, lines_per_page: T.nat16 }) })) }) })],
  http_request: [T.rec({ method: T.text, url: T.text, headers: T.vec(T.tuple(T.text, T.text)), body: T.blob, certificate_version: T.opt(T.nat16) })],
};
learn('Ok', 'Err', 'NonExistingTokenId', 'InvalidRecipient', 'Unauthorized', 'TooOld', 'CreatedInFuture', 'Duplicate', 'GenericError', 'GenericBatchError',
  'ledger_time', 'duplicate_of', 'error_code', 'message', 'InvalidSpender', 'ApprovalDoesNotExist', 'ConcurrentManagementCall', 'ExceedMaxAllowedSupplyCap',
  'TokenAlreadyExists', 'InvalidMemo', 'StorageCanisterError', 'NotTokenOwner', 'TokenDoesNotExist', 'UploadNotFound', 'FileAlreadyExists', 'UploadNotInitialized',
  'UploadAlreadyFinalized', 'UploadNotStarted', 'IncompleteUpload', 'UserNotFound', 'DefaultError', 'Init', 'InProgress', 'Finalized', 'url', 'log_length', 'blocks',
  'archived_blocks', 'id', 'block', 'args', 'callback', 'start', 'length', 'block_type', 'canister_id', 'end', 'status_code', 'headers', 'body', 'upgrade', 'streaming_strategy',
  'certificate', 'hash_tree', 'consent_message', 'metadata', 'GenericDisplayMessage', 'FieldsDisplayMessage', 'UnsupportedCanisterCall', 'ConsentMessageUnavailable',
  'InsufficientPayment', 'description', 'language', 'utc_offset_minutes', 'name', 'max_memory_size_bytes', 'max_blocks_per_response', 'initial_cycles', 'tx_window', 'ttl_for_non_archived_transactions', 'max_unarchived_transactions', 'max_transactions_in_window', 'max_transactions_to_purge', 'reserved_cycles', 'init_cycles_for_archive');

export const VERSION = { major: 1, minor: 2, patch: 3 };
export const initArg = (o) => {
  const d = { test_mode: true, version: VERSION, commit_hash: 'c0ffee', permissions: { user_permissions: [] }, symbol: 'VP', name: 'Verif', collection_metadata: [], approval_init: {} };
  return encode([Args], [{ Init: { ...d, ...o } }]);
};
export const upgradeArg = (o = {}) => encode([Args], [{ Upgrade: { version: VERSION, commit_hash: 'beef', ...o } }]);
export const encodeCall = (method, args) => encode(SIG[method], args);

export class Core {
  constructor(replica, id) { this.r = replica; this.id = id; }
  static install(r, mod, o = {}, installer) {
    const c = r.create([installer]);
    const res = r.install(c, mod, initArg(o), installer);
    if (res.trap !== undefined) return { trap: res.trap };
    r.settle();
    return new Core(r, c.id);
  }
  raw(kind, caller, method, args) { return this.r[kind](this.id, caller, method, encodeCall(method, args)); }
  // Returns {v: value} or {rej: {code,msg}}.
  update(caller, method, ...args) { return out(this.raw('update', caller, method, args)); }
  query(caller, method, ...args) { return out(this.raw('query', caller, method, args)); }
  submit(caller, method, ...args) { return this.r.submit(this.id, caller, method, encodeCall(method, args)); }
  upgrade(mod, installer, o) { const x = this.r.upgrade(this.r.get(this.id), mod, upgradeArg(o), installer); this.r.settle(); return x; }
}
export function out(res) {
  if (res.ok === undefined) return { rej: res };
  const v = decode(res.ok);
  return { v: v.length === 1 ? v[0] : v };
}
