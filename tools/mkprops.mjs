// Writes /verif/properties.jsonl (the properties live here so that they can be read and edited).
import fs from 'node:fs';
const U = 'src/core_nft/src/updates/', Q = 'src/core_nft/src/queries/', C = 'src/core_nft/src/', X = 'src/index_icrc7/src/';
const P = [];
const p = (id, title, statement, over, text, why, files, mechanism, observe_at, state) => P.push({ id, title, statement, quantifier: { over, text }, why_tests_cant: why, anchors: { files, mechanism: mechanism.map(([name, where]) => ({ name, where })), ...(state ? { state: state.map(([name, meaning, where]) => ({ name, meaning, where })) } : {}), observe_at, hook_needed: null } });

p('P01', 'Every ownership view tells the same story',
  'After any history of calls, the set of existing tokens is exactly the tokens minted and not burned, and the owner of each is the account that last received it. icrc7_owner_of, icrc7_balance_of, icrc7_tokens, icrc7_tokens_of and icrc7_total_supply all agree with that set, for every account and token: each token counts for exactly one account. A missing subaccount and the all-zero subaccount name the same account.',
  ['histories', 'inputs'], 'Over every interleaving of mints, transfers, approved transfers, burns, approvals, metadata updates and upgrades by any callers, and every account and token asked about.',
  'The unit tests hold no canister state at all; the integration tests read one view after one or two calls and cannot run offline. Divergence of the two ownership indexes appears only after particular multi-step histories.',
  [C + 'state.rs', U + 'icrc7.rs', U + 'icrc37.rs', U + 'management.rs', Q + 'icrc7.rs'],
  [['tokens_list and tokens_list_by_owner updated together', U + 'icrc7.rs transfer_nft; icrc37.rs transfer_from; management.rs mint, burn_nft'], ['balance read from one index, tokens_of from the other', C + 'state.rs tokens_balance_of, tokens_ids_of_account']],
  ['icrc7_owner_of', 'icrc7_balance_of', 'icrc7_tokens', 'icrc7_tokens_of', 'icrc7_total_supply'], [['tokens_list', 'token id to owner', C + 'state.rs'], ['tokens_list_by_owner', 'account to token ids', C + 'state.rs']]);

p('P02', 'Mint creates exactly the requested tokens under fresh ids',
  'A successful mint answers the first id of a run of consecutive, never before used ids (starting at 1, also after burns and upgrades), one per request in order, each owned by the requested account with the requested metadata. It is refused without the Minting permission, when it would take the supply over the supply cap, when the batch is larger than max_update_batch_size, or when a memo is longer than max_memo_size. A refused mint creates no token, uses up no id and logs nothing.',
  ['histories', 'inputs', 'configurations'], 'Over every history, batch, owner, metadata and memo, and every setting of supply cap, batch size and memo size, including batches that hit the limits exactly.',
  'Tests mint a few tokens under the default limits; id reuse, boundary and partial-failure defects need histories with burns, limits hit exactly and a full transaction window.',
  [U + 'management.rs', C + 'guards.rs', C + 'state.rs'],
  [['mint', U + 'management.rs'], ['last_token_id', C + 'state.rs'], ['minting permission guard', C + 'guards.rs'], ['memo size check', C + 'utils.rs']],
  ['mint', 'icrc7_tokens', 'icrc7_owner_of', 'icrc7_token_metadata', 'icrc7_total_supply', 'icrc3_get_blocks']);

p('P03', 'Only the owner moves a token with icrc7_transfer',
  'An icrc7_transfer item succeeds only if the token exists, its owner account is the caller with the given from_subaccount, the recipient is another, non-anonymous account and the memo fits; it then moves that one token to the recipient, ends the token\'s approvals and answers its position in the log, counted from one. Otherwise the item answers an error for its reason (NonExistingTokenId, Unauthorized, InvalidRecipient or GenericError; InvalidRecipient also for a caller who is not the owner principal) and nothing changes. A valid transfer is not refused except for rate limiting, the transaction window, timing or duplication.',
  ['histories', 'inputs'], 'Over every caller, token, recipient, subaccount and memo, in every reachable ownership and approval state.',
  'Tests try a handful of callers with default subaccounts; authorisation must hold for every caller/subaccount/state combination.',
  [U + 'icrc7.rs', C + 'types/icrc7.rs', C + 'utils.rs'], [['transfer_nft', U + 'icrc7.rs']], ['icrc7_transfer', 'icrc7_owner_of', 'icrc7_balance_of', 'icrc37_get_token_approvals']);

p('P04', 'Only the owner burns a token, and a burned token is gone',
  'burn_nft succeeds only for an existing token whose owner principal is the caller; it answers TokenDoesNotExist or NotTokenOwner otherwise and then changes nothing. After a burn the token has no owner, no metadata view and no approvals, counts in no balance, list or supply, can be neither transferred, approved nor burned again, and its id never comes back. Other tokens are untouched.',
  ['histories', 'inputs'], 'Over every caller and token id in every reachable state, and every later history.',
  'Tests burn one freshly minted token; stale approvals, balances or ids only show in longer histories.',
  [U + 'management.rs', C + 'state.rs'], [['burn_nft', U + 'management.rs']], ['burn_nft', 'icrc7_owner_of', 'icrc7_balance_of', 'icrc7_tokens', 'icrc7_total_supply', 'icrc37_get_token_approvals']);

p('P05', 'icrc37_transfer_from moves a token only with a live approval',
  'An icrc37_transfer_from item succeeds exactly when the token is owned by the given from account and the spender (the caller with spender_subaccount) is that account or holds an unexpired token approval on it or an unexpired collection approval of its owner account, and the recipient is another, non-anonymous account. It then moves the token to the recipient and ends the token\'s approvals; collection approvals survive as long as their giver still owns a token. Otherwise it answers NonExistingTokenId, InvalidRecipient or Unauthorized and changes nothing.',
  ['histories', 'inputs'], 'Over every history of approvals, revocations, transfers and passing time, every spender account, owner account and recipient.',
  'Authorisation depends on the whole approval history, on expiry instants and on subaccounts; tests check a few fixed scenarios with default subaccounts.',
  [U + 'icrc37.rs', C + 'types/wrapped_types.rs'], [['transfer_from', U + 'icrc37.rs'], ['approval maps in stable memory', C + 'types/icrc37.rs']], ['icrc37_transfer_from', 'icrc7_owner_of', 'icrc37_get_token_approvals', 'icrc37_get_collection_approvals']);

p('P06', 'Approval queries tell who can transfer',
  'icrc37_is_approved answers true for exactly the spenders that hold a live token approval or a live collection approval of the token\'s owner, or are the owner account themselves, and false for tokens that do not exist. icrc37_get_token_approvals and icrc37_get_collection_approvals list each live approval once, with the spender, subaccount, expiry and memo it was given with, newest first, and never one that was revoked, replaced or ended. A spender listed there with an unexpired approval on an account that owns a token is approved for it.',
  ['histories', 'inputs'], 'Over every history of approvals, replacements, revocations, transfers, burns and expiry, and every spender, account, token, page start and page size asked.',
  'The queries re-derive authorisation separately from the update calls; agreement must hold in every reachable state, tests compare a few.',
  [Q + 'icrc37.rs', U + 'icrc37.rs'], [['icrc37_is_approved', Q + 'icrc37.rs'], ['icrc37_get_token_approvals', Q + 'icrc37.rs'], ['icrc37_get_collection_approvals', Q + 'icrc37.rs']], ['icrc37_is_approved', 'icrc37_get_token_approvals', 'icrc37_get_collection_approvals']);

p('P07', 'Approvals are given and revoked only by the owner, within limits',
  'icrc37_approve_tokens succeeds only for the owner account of an existing token and icrc37_approve_collection only for a caller that owns a token, never for an anonymous spender and never beyond max_approvals_per_token_or_collection different spenders; approving a known spender again replaces the approval. The revoke calls remove exactly the named spender\'s approval (all approvals when no spender is named) of exactly the named token or account and answer ApprovalDoesNotExist when there is none; at most max_revoke_approvals items of a revoke call are processed. No call changes the approvals of another token or account.',
  ['histories', 'inputs', 'configurations'], 'Over every history of approve and revoke calls on several tokens and accounts, all subaccounts, and every limit setting.',
  'Isolation between maps, replacement and limit behaviour depend on the history of approvals; tests use one token and one or two spenders.',
  [U + 'icrc37.rs', C + 'types/icrc37.rs', C + 'types/wrapped_types.rs'], [['approve_token, approve_collection, revoke_token_approvals, revoke_collection_approvals', U + 'icrc37.rs']], ['icrc37_approve_tokens', 'icrc37_approve_collection', 'icrc37_revoke_token_approvals', 'icrc37_revoke_collection_approvals', 'icrc37_get_token_approvals', 'icrc37_get_collection_approvals']);

p('P08', 'The transaction log is complete, exact and hash-chained',
  'Every successful mint, burn, transfer, approved transfer, approval, revocation and token metadata update adds exactly one block per item, and nothing else adds any: block ids are consecutive from 0, log_length counts them, and each block\'s phash is the thash of the block before it. Each block carries the type, token, principals (of sender, recipient and spender), memo, expiry, creation time and ledger time of its call (7mint, 7burn, 7xfer, 37xfer, 37approve, 37approve_coll, 37revoke, 37revoke_coll, 7update_token), metadata updates with the metadata before and after. Replaying the log from the start yields the current owner principal of every token.',
  ['histories', 'inputs'], 'Over every history of successful and failing calls, batches included, and every page of the log.',
  'The tests read a few blocks back; completeness and exactness are about every call in every history.',
  [U + 'icrc7.rs', U + 'icrc37.rs', U + 'management.rs', Q + 'icrc3.rs'], [['icrc3_add_transaction before each state change', U + 'icrc7.rs; icrc37.rs; management.rs']], ['icrc3_get_blocks']);

p('P09', 'The log survives archiving and upgrades unchanged',
  'Moving blocks to archive canisters, at any time, under failing management or archive calls and with upgrades in between, never loses, duplicates, reorders or alters a block: log_length never decreases, and every block is at any time served, with its original content, either by the ledger or by exactly the archive the ledger points to. Every ten minutes, after upgrades too, the blocks older than two minutes are moved (those that a failing call kept back, by a later run); calls keep working meanwhile. While a thousand blocks wait to be archived, calls that log are refused and change nothing, the log included.',
  ['histories', 'schedules', 'fault_sequences'], 'Over every schedule of archive jobs, calls and upgrades and every sequence of rejected inter-canister calls.',
  'Needs many blocks, days of simulated time and failing inter-canister calls; no test archives anything.',
  [C + 'state.rs', C + 'lifecycle/init.rs', C + 'lifecycle/post_upgrade.rs', Q + 'icrc3.rs'], [['archive job and its restart after an upgrade', C + 'lifecycle/init.rs; post_upgrade.rs start_default_archive_job'], ['log limits', C + 'lifecycle/init.rs ICRC3Properties']], ['icrc3_get_blocks', 'icrc3_get_archives']);

p('P10', 'Management needs the matching permission',
  'mint needs Minting, update_nft_metadata UpdateMetadata, update_collection_metadata UpdateCollectionMetadata, the upload calls UpdateUploads, the upload queries ReadUploads, and granting, revoking and reading permissions and storage canisters ManageAuthorities; a call by anyone else, the anonymous caller included, is rejected and changes nothing, and the holder is never rejected for lack of permission. A permission is held exactly from being granted (at installation or by grant_permission) until it is revoked, by that principal only; get_user_permissions lists each held permission once and has_permission agrees.',
  ['histories', 'inputs'], 'Over every history of grants and revocations, every caller, every permission and every guarded method.',
  'Tests check some methods with one unauthorised caller; the property is about every method, every permission and every grant history.',
  [C + 'guards.rs', C + 'types/permissions.rs', U + 'management.rs', C + 'lifecycle/init.rs'], [['permission guards', C + 'guards.rs'], ['PermissionManager', C + 'types/permissions.rs']], ['all guarded methods', 'get_user_permissions', 'has_permission']);

p('P11', 'Token metadata reads back exactly as written',
  'icrc7_token_metadata answers, for an existing token, exactly the key/value entries of its mint or of its last successful update_nft_metadata (for a repeated key the last one), every kind of value included: text, blobs, natural numbers of any size, integers of up to 128 bits, arrays and maps at any depth. An update replaces the whole metadata of that token only; transfers, approvals, burns of other tokens and upgrades leave it alone. For a token that does not exist the answer is null and an update answers TokenDoesNotExist.',
  ['inputs', 'histories'], 'Over every metadata value, every sequence of mints, updates, transfers, burns and upgrades, and every list of ids asked.',
  'Values pass through a hand-written binary encoding in stable memory; tests store a few short texts and numbers.',
  [C + 'types/metadata.rs', C + 'types/value_custom.rs', C + 'types/nft.rs', U + 'management.rs', Q + 'icrc7.rs'], [['CustomValue encoding', C + 'types/value_custom.rs'], ['replace_all_data', C + 'types/metadata.rs']], ['icrc7_token_metadata', 'mint', 'update_nft_metadata']);

p('P12', 'Collection settings are what was last set, and are obeyed',
  'Each collection setting has the value given at installation until update_collection_metadata gives another; an update changes exactly the settings it names. icrc7_collection_metadata lists exactly the settings that have a value, and the individual setting queries agree with it. Calls obey the current limits, however large they are: batch sizes, take values, memo size, supply cap, transaction window and drift.',
  ['configurations', 'histories', 'inputs'], 'Over every installation configuration and every sequence of partial setting updates and upgrades.',
  'There are 14 settings of which any subset can be given, initially and in every update; tests set one or two.',
  [U + 'management.rs', Q + 'icrc7.rs', C + 'lifecycle/init.rs', C + 'state.rs'], [['Data::new argument order', C + 'lifecycle/init.rs; state.rs'], ['update_collection_metadata', U + 'management.rs'], ['icrc7_collection_metadata', Q + 'icrc7.rs']], ['icrc7_collection_metadata', 'icrc7_* setting queries', 'update_collection_metadata']);

p('P13', 'Paged and batched queries answer exactly the page asked for',
  'icrc7_tokens and icrc7_tokens_of answer, in ascending order, the first take ids greater than prev (default_take_value, 100 when unset, if take is absent), so following the pages lists every id once. Batch queries answer one entry per requested id or account, in the order asked, repeats included. A batch above max_query_batch_size or a take above max_take_value is refused.',
  ['inputs', 'configurations', 'histories'], 'Over every set of existing tokens (with gaps from burns), every prev, take, batch and limit setting.',
  'Tests page through a handful of consecutive ids.',
  [Q + 'icrc7.rs', Q + 'icrc37.rs'], [['icrc7_tokens, icrc7_tokens_of', Q + 'icrc7.rs'], ['batch limits', Q + 'icrc7.rs']], ['icrc7_tokens', 'icrc7_tokens_of', 'icrc7_owner_of', 'icrc7_balance_of', 'icrc7_token_metadata']);

p('P14', 'An upgrade preserves everything users can see',
  'Upgrading the ledger canister at any point of a history changes no answer about tokens, owners, balances, metadata, approvals, permissions, settings, uploads, redirects, certified paths or the transaction log. The history continues afterwards exactly as it would have without the upgrade: same results, same ids, same limits, same duplicate detection.',
  ['histories', 'crash_points'], 'Over every history and every point of it at which one or several upgrades happen, also while uploads are under way.',
  'Tests do not compare state across upgrades beyond one value; anything not serialised is lost silently.',
  [C + 'lifecycle/pre_upgrade.rs', C + 'lifecycle/post_upgrade.rs', C + 'memory.rs', C + 'state.rs', C + 'types/metadata.rs'], [['pre_upgrade serialises state and log', C + 'lifecycle/pre_upgrade.rs'], ['post_upgrade restores them', C + 'lifecycle/post_upgrade.rs'], ['approvals and metadata in stable maps', C + 'memory.rs']], ['all queries before and after']);

p('P15', 'Uploads follow init, store, finalize, and the file is served intact',
  'An upload can be started only for a path that a URL leads to and that is not in use (a leading slash makes no difference), takes chunks until it is finalized or cancelled, is finalized only when complete and matching the announced hash, and then stays; every other order of calls answers the error for its state and changes nothing. get_upload_status and get_all_uploads always report the state reached, and a finalized file read through the redirect is byte for byte what was stored. Calls to storage canisters that fail leave the upload retryable or cancellable, and unfinished uploads older than a day are cleaned up while younger and finalized ones stay.',
  ['histories', 'inputs', 'fault_sequences'], 'Over every order of upload calls for several files, chunk sizes and contents, failing inter-canister calls at any point, and passing time.',
  'Tests upload one file in the intended order without faults.',
  [U + 'management.rs', C + 'types/sub_canister.rs', C + 'jobs/upload_garbage_collector.rs', C + 'types/management.rs'], [['init_upload, store_chunk, finalize_upload, cancel_upload', U + 'management.rs'], ['StorageSubCanisterManager', C + 'types/sub_canister.rs'], ['upload garbage collector', C + 'jobs/upload_garbage_collector.rs']], ['init_upload', 'store_chunk', 'finalize_upload', 'cancel_upload', 'get_upload_status', 'get_all_uploads', 'http_request']);

p('P16', 'HTTP answers are redirects of finalized files and certified',
  'For every finalized upload, and for no other path, http_request answers a temporary redirect to that file on its storage canister; /metrics, /logs and /traces answer valid JSON. Every answer carries a certificate header whose expression path names the path answered and whose tree hashes to the canister\'s current certified data, at any time and also after upgrades.',
  ['histories', 'inputs'], 'Over every set of finalized, unfinished and cancelled uploads, every requested path and every placement of upgrades.',
  'Tests follow one redirect; certification depends on the whole history of assets and upgrades.',
  [C + 'types/http.rs', Q + 'http_request.rs', C + 'lifecycle/post_upgrade.rs'], [['add_redirection, certify_all_assets', C + 'types/http.rs'], ['http_request', Q + 'http_request.rs']], ['http_request', 'certified data']);

p('P17', 'Management calls exclude each other and never lock up',
  'At most one guarded management call (mint, burn, metadata and settings updates, permission changes and upload calls) is in progress at a time: while one waits for another canister, others answer ConcurrentManagementCall and change nothing. Once it has ended, in whatever way - success, error, rejected or trapping inter-canister call, or an upgrade in between - management calls are accepted again.',
  ['schedules', 'fault_sequences'], 'Over every interleaving of management calls by several callers with outstanding inter-canister calls, every failure of those calls, and upgrades at any point.',
  'Needs control over message scheduling and injected failures, which no test has.',
  [C + 'guards.rs', U + 'management.rs', C + 'lifecycle/post_upgrade.rs'], [['GuardManagement', C + 'guards.rs']], ['all management calls'], [['principal_guards', 'callers with a management call in progress', C + 'state.rs']]);

p('P18', 'Per-token rate limit: five calls in 60 ms, no fewer, no more',
  'Within any 60 ms, at most five transfer, approve, revoke or transfer_from operations are accepted for consideration per token (collection approvals and revocations share one budget of their own); further ones answer GenericError and change nothing. An operation with fewer than five considered ones on its token in the last 60 ms is never limited, whoever made the others, and operations on one token never count against another.',
  ['schedules', 'histories', 'inputs'], 'Over every timing of calls by any callers, spaced down to the nanosecond, mixed over tokens and methods.',
  'Limits at exact instants need a controlled clock; the tests sample a few spacings.',
  [C + 'guards.rs', U + 'icrc7.rs', U + 'icrc37.rs'], [['guard_sliding_window', C + 'guards.rs']], ['icrc7_transfer', 'icrc37_approve_tokens', 'icrc37_transfer_from', 'icrc37_revoke_token_approvals', 'icrc37_approve_collection', 'icrc37_revoke_collection_approvals'], [['sliding_window_guards', 'per-token call times', C + 'state.rs']]);

p('P19', 'Transaction timing and deduplication are exact',
  'A call with a created_at_time later than ledger time plus permitted_drift is refused as CreatedInFuture with the ledger time, one older than the transaction window (plus drift for icrc7_transfer) as TooOld, and one in between is never refused for its time. Repeating a call that succeeded within the transaction window given at installation, with the same created_at_time and contents as logged, has no effect and reports the duplicate (Duplicate with the block id of the original for transfers, GenericError for approvals and revocations); calls that differ in what the log records are not duplicates.',
  ['inputs', 'configurations', 'histories'], 'Over every created_at_time relative to ledger time at nanosecond precision, every window and drift setting, and every repetition pattern.',
  'Boundary instants and dedup windows need a controlled clock and history; tests check far-away values.',
  [U + 'icrc7.rs', U + 'icrc37.rs', C + 'lifecycle/init.rs'], [['time checks in transfer_nft', U + 'icrc7.rs'], ['verify_approval_timing', U + 'icrc37.rs'], ['log window', C + 'lifecycle/init.rs']], ['icrc7_transfer', 'icrc37_*']);

p('P20', 'A call that fails changes nothing',
  'An update call that is rejected, traps or answers an error - and each error item of a batch - leaves every observable answer of the ledger as it was: owners, balances, metadata, approvals, permissions, settings, uploads and log. With atomic_batch_transfers set, an icrc7_transfer batch either performs all of its transfers or none.',
  ['inputs', 'histories', 'fault_sequences'], 'Over every reachable state, every failing call or batch of any kind (wrong caller, wrong arguments, limits, throttling, malformed values) and both settings of atomic batches.',
  'The oracle compares the complete observable state around each failing call, over generated failing calls in generated states; tests look at the error code.',
  [U + 'icrc7.rs', U + 'icrc37.rs', U + 'management.rs'], [['log first, then change state', U + 'icrc7.rs; icrc37.rs; management.rs'], ['trap rolls back', U + 'icrc7.rs; management.rs mint']], ['all queries']);

p('P21', 'The index answers exactly what the ledger log contains',
  'Index get_blocks answers only real ledger blocks with their original content: with filters, exactly the requested page of the indexed blocks that match all filters (a principal, given as its default account, involved as sender, recipient or spender; a block type; a token), in the requested order, each once; without filters, the range from start in ascending order, or the last `length` indexed blocks in descending order. total and status report how many blocks have been indexed.',
  ['histories', 'inputs'], 'Over every ledger history with all block types, every combination of filters, start, length and sort order, with blocks in the ledger or in archives, cached or not.',
  'Tests use few block types, one filter and short logs.',
  [X + 'index.rs', X + 'blocks.rs', X + 'update/get_blocks.rs', X + 'cache.rs', X + 'wrapped_values.rs'], [['add_block_to_index', X + 'index.rs'], ['per type extractors', X + 'blocks.rs'], ['get_blocks_with_filters', X + 'update/get_blocks.rs'], ['block cache', X + 'cache.rs']], ['index get_blocks', 'index status']);

p('P22', 'The index catches up and never corrupts itself',
  'However index update rounds are scheduled, overlap, fail (rejected or lost ledger or archive calls) or are interrupted by upgrades of the index or the ledger, the indexed position never goes back, no block is skipped or listed twice, and after undisturbed rounds the index covers the whole log. The daily clean-up of the block cache empties it of old entries and changes no answer. Upgrading the index preserves its answers.',
  ['schedules', 'fault_sequences', 'histories'], 'Over every interleaving of update rounds, queries, ledger calls, upgrades and injected call failures.',
  'Needs control of timers, message order and failures; tests wait for one undisturbed round.',
  [X + 'jobs.rs', X + 'index.rs', X + 'blocks.rs', X + 'lifecycle/post_upgrade.rs'], [['update_index', X + 'jobs.rs'], ['get_all_blocks', X + 'blocks.rs']], ['index get_blocks', 'index status'], [['last_block_id', 'number of blocks indexed', X + 'state.rs']]);

p('P23', 'Consent messages never trap and describe the call',
  'For every method and every argument, well-formed or not, icrc21_canister_call_consent_message answers without trapping and without changing state: for a supported method with decodable arguments a message that names the method (and the number of items when a token method has several, and the first spender of a collection approval), with the metadata preferences returned unchanged; otherwise an UnsupportedCanisterCall error.',
  ['inputs'], 'Over every method name, every argument blob (valid encodings of any batch, mutated and random bytes) and every preference record.',
  'Wallets pass arbitrary bytes; tests pass valid arguments.',
  [Q + 'icrc21.rs'], [['consent handlers', Q + 'icrc21.rs']], ['icrc21_canister_call_consent_message']);

p('P24', 'A batch is the sequence of its items',
  'A batch call of icrc7_transfer (not atomic), icrc37_approve_tokens, icrc37_approve_collection, icrc37_revoke_token_approvals, icrc37_revoke_collection_approvals or icrc37_transfer_from gives, position by position, the same results and leaves the same state as calling its items one at a time, in order, at the same time, except where the rate limit or the throttle of the log refuses an item. Items beyond a documented batch limit are not processed; an empty batch succeeds and changes nothing.',
  ['inputs', 'histories'], 'Over every reachable state and every batch, including batches whose items touch the same token or depend on each other.',
  'Interference between items of a batch needs specific combinations; the check is differential between two runs of the real code from one state.',
  [U + 'icrc7.rs', U + 'icrc37.rs'], [['per item loops', U + 'icrc7.rs; icrc37.rs']], ['icrc7_transfer', 'icrc37_*', 'all queries']);

p('P25', 'The command line tool does what its commands say',
  'Each command of the command line tool has exactly the effect of the ledger calls it stands for, made by the given identity with the arguments given: grant, revoke, has and list name that permission and principal, mint creates one token with that owner, subaccount, memo and metadata, and upload-file and upload-metadata, also after an interrupted upload of the path, leave those bytes served there. A metadata file is accepted exactly when it is an object whose name, description, image and external_url are strings and whose attributes each have a string trait_type, a value and at most a string display_type, and a created file holds exactly what was given. A command that is malformed, that the ledger refuses or one of whose calls is lost ends with a non-zero status, never with a panic, and otherwise changes nothing but the upload it was making.',
  ['inputs', 'histories', 'fault_sequences'], 'Over every argument, metadata file, file content and chunk size, typed or given as options, in every state of the ledger, and every call that fails or whose reply is lost.',
  'No test runs the command line tool: its parsing of arguments, its chunking and its handling of refusals are only exercised by hand.',
  ['cmdline/src/cli.rs', 'cmdline/src/commands.rs', 'cmdline/src/metadata.rs', 'cmdline/src/calls/mint.rs', 'cmdline/src/calls/permissions.rs', 'cmdline/src/calls/uploads.rs'], [['argument parsing', 'cmdline/src/cli.rs, cmdline/src/commands.rs'], ['validate_icrc97_metadata, create_icrc97_metadata', 'cmdline/src/metadata.rs'], ['parse_permission_from_str', 'cmdline/src/calls/permissions.rs'], ['upload_file', 'cmdline/src/calls/uploads.rs']], ['exit status and output of the tool', 'has_permission', 'icrc7_token_metadata', 'icrc7_owner_of', 'http_request']);

p('P26', 'Canisters created by the ledger are its own, closed and kept funded',
  'Every canister the ledger creates for files or archived blocks is created with 5 T cycles, has the ledger as its only controller, is listed by the ledger, and takes uploads or blocks from nobody but the ledger and, for files, principals that have held ManageAuthorities. Whenever the spendable balance of such a canister is below 1 T cycles the ledger adds 2 T within a minute; it adds nothing to one with more, and makes up for a failed status check or deposit at the next minute. This holds after any number of upgrades of the ledger.',
  ['histories', 'fault_sequences', 'inputs'], 'Over every history of uploads, archiving, permission changes and upgrades, every balance, every caller and every failure of the funding calls.',
  'No test drains a canister, waits for the funding timer or upgrades the ledger first; a canister that is not funded is deleted months later, with its files or blocks.',
  [C + 'types/sub_canister.rs', C + 'types/fund_manager.rs', C + 'lifecycle/post_upgrade.rs', C + 'state.rs'], [['sub_canister_funding_config, add_canisters_to_fund_manager', C + 'types/fund_manager.rs'], ['StorageSubCanisterManager', C + 'types/sub_canister.rs'], ['restore_archive_funding', C + 'lifecycle/post_upgrade.rs'], ['authorized_principals', C + 'state.rs Data::new']], ['balance and controllers of the created canisters', 'get_all_storage_subcanisters', 'icrc3_get_archives', 'init_upload of a storage canister', 'insert_blocks of an archive']);

p('P27', 'The ledger describes itself and its log truthfully',
  'Each standard the ledger implements is listed once in icrc10_supported_standards with its own URL and all methods it prescribes are there; the type of every logged block is listed once in icrc3_supported_block_types with its own URL, and the properties of the log and the approval limits never change. icrc3_get_blocks answers any list of ranges, of any size, with exactly the existing blocks of each range, those of archived blocks by way of the archive it names, and the length of the log. The tip certificate proves the last block.',
  ['histories', 'inputs'], 'Over every history with archiving and upgrades, and every list of ranges, including empty, overlapping, unbounded and far away ones.',
  'Tests read one range of a short log; which block types occur, and where ranges meet the archive, depends on the history.',
  [Q + 'icrc3.rs', Q + 'icrc10.rs', Q + 'icrc37.rs', C + 'lifecycle/init.rs'], [['icrc3_get_blocks', Q + 'icrc3.rs'], ['supported_blocks', C + 'lifecycle/init.rs'], ['icrc10_supported_standards', Q + 'icrc10.rs']], ['icrc3_get_blocks', 'icrc3_supported_block_types', 'icrc3_get_properties', 'icrc3_get_tip_certificate', 'icrc10_supported_standards', 'icrc37_metadata']);

p('P28', 'Any well-formed call is answered, whatever its values',
  'A call to the ledger or the index whose argument has the declared type is answered - with a result or an error of its type - whatever numbers, texts, principals, list lengths and nested values it holds, except for the documented rejections (a query with more entries than the query batch or take limit, a failing atomic batch, a mint that cannot be logged, an integer beyond 128 bits in an update of metadata, an HTTP request for something that is not stored). Any argument, of whatever bytes, that is rejected has changed nothing. Whatever was accepted, both canisters can be upgraded afterwards, the upgrade changes no answer and no query traps.',
  ['inputs', 'histories'], 'Over every method, every caller, every argument of the declared type - in reachable states - and every byte string.',
  'Tests pass ordinary arguments; a value that makes a canister trap, or that it stores but cannot load again, is far from those.',
  [U, Q, X + 'update/get_blocks.rs', C + 'lifecycle/post_upgrade.rs'], [['argument handling of all endpoints', U + '; ' + Q], ['index get_blocks', X + 'update/get_blocks.rs'], ['state kept over upgrades', C + 'lifecycle/pre_upgrade.rs']], ['all methods of the ledger and of the index']);
fs.writeFileSync(new URL('../properties.jsonl', import.meta.url), P.map((x) => JSON.stringify(x)).join('\n') + '\n');
for (const x of P) { if (x.title.length > 80) console.log('long title', x.id, x.title.length); const n = x.statement.split(/[.](?= |$)/).filter((s) => s.trim()).length; if (n > 3) console.log('long statement', x.id, n); }
