"""Which entry points carry which property."""
def names(*ns):
    def f(c, P): return [k for k in sorted(P.exports) if k.split('.')[-1] in ns]
    return f
def all_exports(c, P): return sorted(P.exports)
def updates(c, P): return [k for k in sorted(P.exports) if not k.startswith('canister_query.')]
SLOW = ['icrc37_transfer_from', 'icrc37_revoke_token_approvals', 'icrc37_revoke_collection_approvals', 'icrc7_transfer', 'icrc37_approve_tokens', 'icrc37_approve_collection', 'mint', 'icrc37_is_approved']
BATCH = ('icrc7_transfer', 'icrc37_transfer_from', 'icrc37_approve_tokens', 'icrc37_approve_collection', 'icrc37_revoke_token_approvals', 'icrc37_revoke_collection_approvals')
TRUSTED = ['rustc (MIR construction)', 'engine: symbolic executor for MIR and contract checker (/verif/engine)', 'z3']
ASSUMPTIONS = [
 'usize is 64 bits (the canister runs on wasm32); sequence lengths stay below 2^62',
 'machine integers of the crate are modelled as mathematical integers with the wrap-around of release builds where an operation can overflow',
 'library functions (std, candid, ic-cdk, ic-stable-structures, bity-ic crates) satisfy the contracts listed in the trusted base; a trap rolls the whole message back',
 'candid decoding yields a well-typed value or traps; canister messages run one at a time between awaits',
]
CORE = ['core_nft']
def plus(f, *cs):
    """entry points plus internal functions under their own contract (when the crate has them)"""
    def g(c, P):
        import run1
        return f(c, P) + ['contract.' + x for x in cs if run1.contract_inst(P, x) is not None]
    return g
PROPS = {
 'C01': dict(crates=CORE, exports=all_exports),
 'C02': dict(crates=CORE, exports=all_exports),
 'C03': dict(crates=CORE, exports=all_exports),
 'C04': dict(crates=CORE, exports=all_exports),
 'C05': dict(crates=CORE, exports=all_exports),
 'C07': dict(crates=CORE, exports=all_exports),
 'C11': dict(crates=CORE, exports=all_exports),
 'C13': dict(crates=CORE, exports=all_exports),
 'C14': dict(crates=CORE, exports=all_exports),
 'C15': dict(crates=CORE, exports=plus(all_exports, 'guard_sliding_window')),
 'C16': dict(crates=CORE, exports=names('canister_init', 'canister_pre_upgrade', 'canister_post_upgrade'), smoke=25, known=True),
 'C06': dict(crates=CORE, exports=names('icrc37_is_approved', 'icrc37_transfer_from')),
 'C08': dict(crates=CORE, exports=all_exports),
 'C09': dict(crates=CORE, exports=names(*BATCH)),
 'C10': dict(crates=CORE, exports=names('icrc7_tokens', 'icrc7_tokens_of')),
 'C17': dict(crates=CORE, exports=names(*BATCH, 'icrc7_owner_of', 'icrc7_balance_of', 'icrc7_token_metadata', 'icrc37_is_approved')),
 'C18': dict(crates=CORE, exports=names('icrc37_get_token_approvals', 'icrc37_get_collection_approvals')),
 'C19': dict(crates=CORE, exports=all_exports),
 'C20': dict(crates=CORE, exports=names('icrc7_owner_of', 'icrc7_balance_of', 'icrc7_token_metadata', 'icrc7_transfer', 'mint')),
}
INDEX = dict(crates=['index_icrc7'], wasm='index_icrc7', search='isearch.js', needs=('add_block_to_index', 'get_all_blocks', 'group_consecutive_block_ids', 'remove_all_values_older_than'))
def index(f, *cs): return lambda c, P: (f(c, P) if f else []) + ['contract.' + x for x in cs]
PROPS.update({
 'I01': dict(INDEX, exports=index(None, 'add_block_to_index')),
 'I02': dict(INDEX, exports=index(names('get_blocks'), 'get_all_blocks')),
 'I03': dict(INDEX, exports=index(None, 'group_consecutive_block_ids', 'get_all_blocks')),
 'I04': dict(INDEX, exports=index(all_exports, 'get_all_blocks', 'remove_all_values_older_than')),
 'I05': dict(INDEX, exports=index(all_exports, 'get_all_blocks')),
})
for p in ('I01', 'I02', 'I03', 'I04', 'I05'):
    PROPS[p]['assumptions'] = ['the configured ledger and its archives answer a range request with the blocks they hold in that range, each once, either directly or through the archive ranges the answer names; a block id always has the same content',
                               'the ledger holds fewer than 2^63 blocks', 'the listed internal functions are verified against their own contract and used by it in their callers']
def codecs(c, P):
    import cspec
    return ['codec.' + t for t in cspec.types(P)]
CODEC = ['minicbor: a primitive reader returns what the primitive writer of the same kind put at that place, whole tokens at a time, and refuses tokens of other kinds; a vector of integers or text is read back as written and never starts with null',
         'a codec used inside another one (metadata values inside a metadata set, values inside values, approvals inside an approval set) is used by its own contract: induction on the nesting depth',
         'Principal::from_slice inverts Principal::as_slice, at most 29 bytes', 'integers that do not fit 64 bits are outside the range the collection accepts (storing them traps, nothing is stored)']
PROPS['C12'] = dict(crates=CORE, exports=codecs, expect=('WrappedNat', 'WrappedAccount', 'WrappedApprovalValue', 'Approval', 'CustomValue', 'MetadataData'), search_props=['C12', 'C11', 'C18', 'C05', 'C06', 'C01', 'C02'], assumptions=CODEC)
PROPS['I06'] = dict(INDEX, needs=(), exports=codecs, expect=('WrappedNat', 'WrappedAccount', 'CustomValue', 'IndexType', 'IndexValue', 'CacheEntry'), search_props=['I06', 'I01', 'I02', 'I03', 'I04', 'I05'], assumptions=CODEC)
PROPS['K01'] = dict(crates=['origyn_icrc7_cmdlinetools'], needs=('upload_file',), exports=lambda c, P: ['contract.upload_file'], search='upload', note='Every obligation of the contract of upload_file is discharged by z3 for every file, path and chunk size, any call failing, any read short (loop cut by an invariant, no bound); trusted: rustc MIR construction, the executor, z3, and the contracts of library functions (files, hashing, candid, agent) listed in the evidence. If the executor cannot take the code, the check falls back to a bounded list of cases on the real source.',
                    assumptions=['the file does not change while it is uploaded and is shorter than 2^62 bytes; reads return the next bytes of the file, possibly fewer than asked for; any call may fail',
                                 'the chunk size is at least 1 and below 2^62 (with chunk size zero the tool panics)'])
NOTE = ('Every obligation of the contracts on the entry points this property depends on is discharged by z3 for all arguments, callers, times and states satisfying the invariant (loops cut by invariants, '
        'no bound); trusted: rustc MIR construction, the executor, z3, and the contracts of library functions listed in the evidence. Entry points the executor cannot take (none on the current tree unless the evidence says so) '
        'fall back to a bounded search on the real wasm.')
NOTES = 'Checks extract MIR from /repo on every run; see DESIGN.md.'
