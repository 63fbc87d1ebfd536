#!/usr/bin/env python3
# writes properties.jsonl (kept as a generator so the file stays one-line-per-property)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})
U="src/core_nft/src/updates/"; Q="src/core_nft/src/queries/"; T="src/core_nft/src/types/"; S="src/core_nft/src/state.rs"; I="src/index_icrc7/src/"
NOT="The runnable unit tests of core_nft only exercise the metadata value codec; the integration tests sample a handful of callers and tokens and cannot run offline."
TOK=("token registry","token id -> current owner","src/core_nft/src/state.rs Data.tokens_list")
OWN=("owner index","account -> list of token ids","src/core_nft/src/state.rs Data.tokens_list_by_owner")
TAP=("token approvals","token id -> (spender -> approval), in stable memory",T+"icrc37.rs __TOKEN_APPROVALS")
CAP=("collection approvals","owner account -> (spender -> approval), in stable memory",T+"icrc37.rs __COLLECTION_APPROVALS")
p("C01","Ownership changes only on proper authority",
  "A token's owner changes only when the call is a transfer made by the principal that owns the token, or a delegated transfer whose named source account is the token's current owner and whose caller either is that owner or holds a live approval; a token disappears only when its owner's principal burns it, and a token appears only through minting. No other call, whatever its caller and arguments, changes, creates or removes the ownership of any token, and nothing is ever moved to an account of the anonymous principal by a transfer.",
  ["inputs","histories"],"every update call, every caller, every argument vector (batches of any length), from every state reachable by any history of calls",
  NOT,[U+"icrc7.rs",U+"icrc37.rs",U+"management.rs",S],
  [("owner check and recipient check in the direct transfer",U+"icrc7.rs transfer_nft"),("approval lookup in the delegated transfer",U+"icrc37.rs transfer_from"),("owner check in burn",U+"management.rs burn_nft")],[TOK,TAP,CAP],["icrc7_owner_of","icrc7_transfer","icrc37_transfer_from","burn_nft"])
p("C02","Ownership views always agree",
  "In every reachable state the ownership queries describe one and the same assignment of tokens to accounts: an account's reported balance equals the number of tokens whose reported owner is that account, the tokens listed for an account are exactly those tokens, each once, and the total supply equals the number of tokens that have an owner. This stays true after every mint, transfer, delegated transfer, burn and metadata update, successful or not.",
  ["histories","inputs"],"every history of calls from installation on, every account and token",
  NOT+" The invariant relates two maps updated at four separate places.",[S,U+"icrc7.rs",U+"icrc37.rs",U+"management.rs",Q+"icrc7.rs"],
  [("paired updates of registry and owner index",U+"icrc7.rs transfer_nft; "+U+"icrc37.rs transfer_from; "+U+"management.rs mint, burn_nft"),("balance and listing queries",S+" tokens_balance_of, tokens_ids_of_account")],[TOK,OWN],["icrc7_balance_of","icrc7_owner_of","icrc7_tokens_of","icrc7_tokens","icrc7_total_supply"])
p("C03","Every successful operation appends exactly one matching log block",
  "Each transfer, delegated transfer, approval, revocation, burn, metadata update and each minted token that is reported as successful has appended exactly one block to the transaction log, of the right kind and naming the right token, source, destination and spender, and the index reported for it is the one the log returned for that block. An item reported as failed appends no block and leaves ownership, approvals and token metadata as they were (except that an expired approval may be dropped); read-only calls append nothing.",
  ["inputs","histories","fault_sequences"],"every endpoint and argument, including the log refusing the block",
  NOT+" A refused log entry is never provoked by a test.",[U+"icrc7.rs",U+"icrc37.rs",U+"management.rs"],
  [("log first, mutate after",U+"icrc7.rs transfer_nft"),("log first, mutate after",U+"icrc37.rs"),("log first, mutate after",U+"management.rs mint, burn_nft, update_nft_metadata")],[TOK],["icrc3_get_blocks"])
p("C04","A delegated transfer needs a live approval and consumes the token's approvals",
  "A delegated transfer by someone other than the owner succeeds only if, at that moment, the caller's spender account holds an unexpired approval on that token, or an unexpired collection-wide approval from the account that currently owns the token. After any successful transfer of a token, direct or delegated, and after a burn, no approval on that token remains, so an approval given by a previous owner never lets anyone move it.",
  ["histories","inputs"],"every sequence of approve, revoke, transfer, delegated transfer and burn, every spender account and expiry time",
  NOT,[U+"icrc37.rs",U+"icrc7.rs",U+"management.rs"],
  [("approval lookup with expiry",U+"icrc37.rs transfer_from"),("approval removal on transfer",U+"icrc37.rs transfer_from")],[TAP,CAP],["icrc37_transfer_from","icrc37_get_token_approvals"])
p("C05","Approvals are created and revoked only by the owner, with exact effect",
  "An approval on a token is created or removed by request only if the requesting account owns the token, and a collection approval only under the caller's own account; a successful approval stores exactly the requested spender, source account, expiry and memo for that token or account, within the configured limit, and never for an anonymous spender account. A successful revocation removes exactly the named spender's approval (or all of them when none is named) of that token or account, and approvals of every other token, account and spender stay unchanged. Otherwise an approval goes away only once it has expired, with its token's transfer or burn, or, if collection-wide, when a delegated transfer takes its account's last token.",
  ["inputs","histories"],"every approve and revoke call, every caller, subaccount, spender and batch",
  NOT,[U+"icrc37.rs"],[("approve paths",U+"icrc37.rs approve_token, approve_collection"),("revoke paths",U+"icrc37.rs revoke_token_approvals, revoke_collection_approvals")],[TAP,CAP],["icrc37_get_token_approvals","icrc37_get_collection_approvals"])
p("C06","The approval check agrees with what a delegated transfer would allow",
  "For every spender account, owner subaccount and token, the approval query answers true exactly when the spender account is itself the token's owner account, or holds an unexpired approval on the token or an unexpired collection approval from the token's current owner whose account has the given subaccount. It never answers true for a token that does not exist.",
  ["inputs","histories"],"every query argument in every reachable state",
  NOT,[Q+"icrc37.rs",U+"icrc37.rs"],[("approval query",Q+"icrc37.rs icrc37_is_approved"),("authorisation in delegated transfer",U+"icrc37.rs transfer_from")],[TAP,CAP],["icrc37_is_approved"])
p("C07","Minting assigns fresh consecutive ids and respects the limits",
  "A successful mint of n requests creates exactly n new tokens with consecutive ids that were never used before, the i-th owned by the i-th requested account, and answers the first id; no token already existing is changed. A mint succeeds only if the resulting number of tokens does not exceed the supply cap, the batch does not exceed the configured batch limit and every memo is within the memo limit, and a mint answered with an error creates no token.",
  ["inputs","histories"],"every batch of mint requests, every configuration of limits, every earlier history including burns",
  NOT,[U+"management.rs"],[("limit checks and id assignment",U+"management.rs mint"),("next id counter",S+" last_token_id")],[TOK],["mint","icrc7_total_supply","icrc7_owner_of"])
p("C08","Management endpoints are gated by exactly the right permission",
  "Minting, token metadata updates, collection metadata updates, upload operations, upload queries, and permission management take effect and answer only for callers holding the specific permission for that operation. Granting adds exactly the named permission to exactly the named principal and revoking removes it completely, leaving every other principal's and every other permission unchanged; nothing else changes permissions.",
  ["inputs","histories"],"every endpoint, caller, permission table and grant/revoke history",
  NOT,[T+"permissions.rs","src/core_nft/src/guards.rs",U+"management.rs"],[("permission guards","src/core_nft/src/guards.rs create_permission_guard"),("permission table",T+"permissions.rs")],[("permission table","principal -> permissions",T+"permissions.rs PermissionManager")],["has_permission","get_user_permissions","mint","grant_permission","revoke_permission"])
p("C09","Stale and future-dated requests are refused",
  "A transfer, approval, revocation or delegated transfer that carries a creation time is carried out only if that time lies within the configured window: not later than the ledger's time plus the permitted drift and not earlier than the ledger's time minus the transaction window (and drift). A request refused for its time changes nothing and is not logged.",
  ["inputs","configurations"],"every creation time, ledger time, drift and window value, for each of the six timed operations",
  NOT,[U+"icrc7.rs",U+"icrc37.rs"],[("time window test",U+"icrc7.rs transfer_nft"),("time window test",U+"icrc37.rs verify_approval_timing")],None,["icrc7_transfer","icrc37_approve_tokens","icrc37_transfer_from"])
p("C10","Token listings paginate exactly",
  "The token listing and the per-account token listing return, in ascending order and without repetition, exactly the first `take` ids greater than `prev` among all tokens (or all tokens of the account), so that following the pages visits every token exactly once. A requested page size above the configured maximum is refused.",
  ["inputs","histories","configurations"],"every token set, prev, take and limit configuration",
  NOT,[Q+"icrc7.rs",S],[("sort, skip, take",Q+"icrc7.rs icrc7_tokens, icrc7_tokens_of")],[TOK],["icrc7_tokens","icrc7_tokens_of"])
p("C11","Token metadata is exactly what was last written, and isolated per token",
  "After a successful mint or metadata update, the metadata reported for that token is exactly the set of key/value pairs given (the last value for a repeated key, nothing left over from before an update), and the metadata of every other token is unchanged. No other operation changes any token's metadata, and metadata is reported only for tokens that exist.",
  ["inputs","histories"],"every metadata list, every history of mints and updates",
  NOT,[U+"management.rs",T+"metadata.rs",T+"nft.rs",Q+"icrc7.rs"],[("metadata store",T+"metadata.rs Metadata"),("write paths",T+"nft.rs add_metadata, replace_metadata")],[("metadata store","token id -> key -> value, stable memory",T+"metadata.rs __METADATA")],["icrc7_token_metadata"])
p("C12","Stable-memory encodings round-trip",
  "Every token id, account, approval set, metadata value and metadata set that the collection accepts decodes from its stored form to exactly the value that was stored.",
  ["inputs"],"every value of the stored types, including nested metadata of any shape and boundary integers",
  "The unit tests round-trip eleven sample metadata values; other stored types are not covered at all.",[T+"wrapped_types.rs",T+"value_custom.rs",T+"metadata.rs",T+"icrc37.rs"],
  [("key and value codecs",T+"wrapped_types.rs"),("metadata value codec",T+"value_custom.rs"),("metadata set codec",T+"metadata.rs")],None,["stable maps"])
p("C13","Uploads follow their life cycle",
  "An upload is registered only for a path not already in use, receives chunks only while registered and not finalized, is finalized only after at least one chunk was accepted, is cancelled only before finalization, and a finalized upload never returns to an earlier stage. An upload changes stage only when the storage canister confirmed the step (an unfinished upload whose storage canister the collection no longer knows is dropped), and operations on one path never alter another path's upload.",
  ["histories","fault_sequences","schedules"],"every sequence of upload calls and storage-canister answers, including failures",
  NOT,[U+"management.rs",S],[("stage checks",U+"management.rs init_upload, store_chunk, finalize_upload, cancel_upload")],[("upload table","path -> stage",S+" InternalFilestorage")],["get_upload_status","get_all_uploads"])
p("C14","Management calls exclude one another and always release the lock",
  "While one management operation is waiting for another canister, every other management operation is refused without effect, and once the operation ends, successfully or not, management operations are possible again.",
  ["schedules","histories"],"every interleaving of management calls at their suspension points, every outcome",
  NOT+" No test interleaves two calls.",["src/core_nft/src/guards.rs",U+"management.rs"],[("guard object taken at entry, dropped at exit","src/core_nft/src/guards.rs GuardManagement")],[("lock set","principals with a management call in progress",S+" principal_guards")],["mint","init_upload"])
p("C15","Per-token call rate limit",
  "Transfers, approvals, revocations and delegated transfers of a token are admitted at most five times in any 60 ms window for that token; a further one is refused without any effect, and calls on other tokens do not count against it (collection-wide approvals and revocations together count as one further token).",
  ["histories","inputs"],"every call sequence and every timing",
  NOT,["src/core_nft/src/guards.rs"],[("sliding window","src/core_nft/src/guards.rs guard_sliding_window")],[("call history","token id -> recent call times",S+" sliding_window_guards")],["icrc7_transfer","icrc37_transfer_from"])
p("C16","Upgrades preserve the collection",
  "Upgrading the canister preserves tokens, owners, approvals, metadata, permissions, settings, uploads, redirections and the transaction log, and changes only the recorded version and commit hash.",
  ["histories","crash_points"],"every state at the time of upgrade",
  NOT,["src/core_nft/src/lifecycle/pre_upgrade.rs","src/core_nft/src/lifecycle/post_upgrade.rs","src/core_nft/src/memory.rs"],[("state serialisation","src/core_nft/src/lifecycle/pre_upgrade.rs, post_upgrade.rs")],None,["all queries after upgrade"])
p("C17","Batch answers correspond one-to-one to their requests",
  "Batch updates and batch queries answer with one result per processed request, in request order, each describing its own request; the direct transfer processes exactly the first requests up to the batch limit, refuses anonymous callers outright, and answers an empty batch with an empty list without side effects.",
  ["inputs","configurations"],"every batch length and content, every batch limit",
  NOT,[U+"icrc7.rs",U+"icrc37.rs",Q+"icrc7.rs",Q+"icrc37.rs"],[("batch loops",U+"icrc7.rs icrc7_transfer; "+U+"icrc37.rs")],None,["icrc7_transfer","icrc37_approve_tokens","icrc7_owner_of","icrc7_balance_of","icrc37_is_approved"])
p("C18","Approval listings report the stored approvals faithfully",
  "The approval listings for a token and for an account return only approvals stored for that token or account, each with its own spender, source subaccount, expiry, memo and creation time, at most `take` of them and none twice; with a large enough page and no starting point they return all of them.",
  ["inputs","histories"],"every approval set, prev and take",
  NOT,[Q+"icrc37.rs"],[("listing",Q+"icrc37.rs icrc37_get_token_approvals, icrc37_get_collection_approvals")],[TAP,CAP],["icrc37_get_token_approvals","icrc37_get_collection_approvals"])
p("C19","Settings reads report what was set; updates touch only what they name",
  "Each settings query reports the value given at installation or by the latest successful settings update that named it; an update changes exactly the settings it names and nothing else, and no other call changes a setting. The collection metadata query lists each set setting under its own key.",
  ["inputs","histories"],"every subset of settings in an update and every history",
  NOT,[U+"management.rs",Q+"icrc7.rs","src/core_nft/src/lifecycle/init.rs"],[("settings update",U+"management.rs update_collection_metadata"),("settings queries",Q+"icrc7.rs")],None,["icrc7_name","icrc7_symbol","icrc7_supply_cap","icrc7_collection_metadata"])
p("C20","Oversized requests are refused",
  "Ownership, balance and metadata queries over more items than the configured query limit are refused as a whole; a transfer or mint whose memo is longer than the configured memo limit is refused without effect.",
  ["inputs","configurations"],"every batch size, memo length and limit",
  NOT,[Q+"icrc7.rs","src/core_nft/src/utils.rs"],[("query limit",Q+"icrc7.rs"),("memo limit","src/core_nft/src/utils.rs check_memo")],None,["icrc7_owner_of","icrc7_balance_of","icrc7_token_metadata","icrc7_transfer","mint"])
BI="The index tests only cover the helper that groups consecutive ids."
IDX=("index","index key -> block ids, newest first, stable memory",I+"index.rs __INDEX")
p("I01","Every block is indexed under each of its keys, exactly once",
  "Indexing a block adds its id exactly once, as the newest entry, under its block type, under the token it names, and under each distinct account it names as source, destination or spender, and changes no other entry. A block that cannot be indexed changes nothing.",
  ["inputs","histories"],"every block of every supported kind, every index content",
  BI,[I+"index.rs",I+"blocks.rs",I+"wrapped_values.rs"],[("index insertion",I+"index.rs add_block_to_index"),("field extraction",I+"blocks.rs TransactionDataExtractor")],[IDX],["get_blocks"])
p("I02","Filtered block queries return exactly the matching page",
  "A block query with filters selects exactly the blocks whose ids are listed under every given filter, orders them by id, and returns the requested page of that list; an offset beyond the end gives an empty page rather than an error.",
  ["inputs","histories"],"every index content, filter list, offset, length and order",
  BI,[I+"update/get_blocks.rs",I+"blocks.rs"],[("intersection and paging",I+"update/get_blocks.rs get_blocks_with_filters")],[IDX],["get_blocks"])
p("I03","Grouping block ids into ranges loses and invents nothing",
  "Splitting an ascending list of block ids yields maximal runs of consecutive ids whose concatenation is the list; the ids are in ascending order whenever they are split, so fetching the runs as ranges asks the ledger for exactly the listed blocks, and for each listed once only once.",
  ["inputs"],"every list of ids, including empty lists, gaps, duplicates and the largest id",
  "The unit tests check seven sample lists.",[I+"blocks.rs"],[("grouping",I+"blocks.rs group_consecutive_block_ids")],None,["block requests sent to the ledger"])
p("I04","The block cache is transparent",
  "A block served from the index's cache is the block the ledger returned for that id, with its id; cached and uncached queries return the same blocks, and cleaning the cache removes exactly the entries older than the given time.",
  ["histories","inputs"],"every cache content, id list and order",
  BI,[I+"blocks.rs",I+"cache.rs"],[("cache lookup and fill",I+"blocks.rs get_all_blocks"),("cache cleanup",I+"cache.rs remove_all_values_older_than")],[("cache","block id -> block, stable memory",I+"cache.rs __CACHE")],["get_blocks"])
p("I05","Index progress is exact",
  "The index's progress counter advances by exactly the number of blocks added to the index, blocks are indexed in ledger order without gaps or repeats, and a failed fetch or an unindexable block leaves the counter at the first block not yet indexed.",
  ["histories","schedules","fault_sequences"],"every sequence of update rounds, including overlapping rounds and failed fetches",
  BI+" Nothing tests overlapping update rounds.",[I+"jobs.rs",I+"index.rs"],[("update round",I+"jobs.rs update_index")],[("progress counter","next block to index",I+"state.rs last_block_id")],["status","get_blocks"])
p("I06","Index stable-memory encodings round-trip",
  "Every index key, list of block ids, account and cached block decodes from its stored form to exactly the value that was stored.",
  ["inputs"],"every stored value","The index tests round-trip a dozen sample metadata values and the helper that groups ids; index keys, id lists, accounts and cached blocks are not covered.",[I+"wrapped_values.rs",I+"cache.rs",I+"index.rs"],[("codecs",I+"wrapped_values.rs, cache.rs, index.rs")],None,["stable maps"])
p("K01","The upload tool sends the whole file",
  "The command line tool splits a file into chunks that, put together in order, are exactly the file's bytes, with consecutive chunk numbers from zero, the announced size and hash being those of the whole file.",
  ["inputs"],"every file content and positive chunk size, reads that return fewer bytes than asked for, any call failing",
  "The command line tool's tests do not read files.",["cmdline/src/calls/uploads.rs"],[("chunk loop","cmdline/src/calls/uploads.rs upload_file")],None,["upload calls"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
for x in P:
    n=x['statement'].count('. ')+1
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    if n>3: print('sentences',x['id'],n)
