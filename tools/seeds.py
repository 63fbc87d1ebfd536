"""Planted changes: edits, demonstration, description."""
U37 = 'src/core_nft/src/updates/icrc37.rs'; U7 = 'src/core_nft/src/updates/icrc7.rs'; UM = 'src/core_nft/src/updates/management.rs'
Q37 = 'src/core_nft/src/queries/icrc37.rs'; Q7 = 'src/core_nft/src/queries/icrc7.rs'
MINT = '''
const w=new World(process.argv[2]);
const mint=(...os)=>w.u('mint',[{mint_requests:os.map(o=>({token_owner:o.owner?o:acct(o),metadata:[],memo:null}))}],A).ok[0].Ok;
const tick=()=>w.ic.tick(100_000_000);
'''
APT = '''
const approve=(id,who,sp,fs=null,exp=null)=>{tick();return w.u('icrc37_approve_tokens',[[{token_id:id,approval_info:{spender:sp,from_subaccount:fs,expires_at:exp,memo:null,created_at_time:w.now}}]],who).ok[0].Ok[0];};
const xferfrom=(id,who,from,to,ss=null)=>{tick();return w.u('icrc37_transfer_from',[[{token_id:id,from,to,spender_subaccount:ss,memo:null,created_at_time:null}]],who).ok[0].Ok[0];};
const xfer=(id,who,to)=>{tick();return w.u('icrc7_transfer',[[{token_id:id,to,memo:null,from_subaccount:null,created_at_time:null}]],who).ok[0][0];};
const owner=id=>{const x=w.q1('icrc7_owner_of',[[id]])[0];return x&&akey(x);};
'''
SEEDS = {}
def seed(sid, prop, edits, needs, breaks, demo, pre=MINT + APT, **k): SEEDS[sid] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, pre=pre, **k)

seed('C04-owner-transfer-keeps-approvals', 'C04', [(U37, '''    let previous_owner = nft.token_owner.clone();

    nft.transfer(arg.to.clone());
''', '''    let previous_owner = nft.token_owner.clone();

    nft.transfer(arg.to.clone());
    let keep_approvals = is_caller_token_holder && !has_token_approval;
'''), (U37, '''    __TOKEN_APPROVALS.with_borrow_mut(|token_approvals| {
        token_approvals.remove(&WrappedNat::from(arg.token_id.clone()));
    });
''', '''    if !keep_approvals {
        __TOKEN_APPROVALS.with_borrow_mut(|token_approvals| {
            token_approvals.remove(&WrappedNat::from(arg.token_id.clone()));
        });
    }
''')], 'the owner moves the token through the delegated transfer call while another spender holds an approval on it',
 'the previous owner\'s approval survives the transfer, so its spender can take the token from the new owner', '''
const t=mint(A);
assert('Ok' in approve(t,A,acct(C)));
assert('Ok' in xferfrom(t,A,acct(A),acct(B)));
const r=xferfrom(t,C,acct(B),acct(C));
assert(!('Ok' in r),'an approval given by a previous owner moved the token');
assert.equal(owner(t),akey(acct(B)));
''')
seed('C01-source-account-principal-only', 'C01', [(U37, 'let is_owner = nft.token_owner == arg.from;', 'let is_owner = nft.token_owner.owner == arg.from.owner;')],
 'a delegated transfer naming a source account with another subaccount of the owner\'s principal, sent with that subaccount as spender subaccount',
 'the named source account is not the token\'s current owner account, yet the token moves', '''
const t=mint(acct(A,sub(1)));
const r=xferfrom(t,A,acct(A,sub(2)),acct(B),sub(2));
assert(!('Ok' in r),'moved from an account that does not hold it');
assert.equal(owner(t),akey(acct(A,sub(1))));
''')
seed('C02-index-kept-within-principal', 'C02', [(U7, '''                state
                    .data
                    .tokens_list_by_owner
                    .entry(previous_owner)
                    .or_insert(vec![])
                    .retain(|id| *id != nft.token_id.clone());
''', '''                if previous_owner.owner != arg.to.owner {
                    state
                        .data
                        .tokens_list_by_owner
                        .entry(previous_owner)
                        .or_insert(vec![])
                        .retain(|id| *id != nft.token_id.clone());
                }
''')], 'a direct transfer between two subaccounts of the same principal', 'the old subaccount\'s balance still counts the token', '''
const t=mint(A);
assert('Ok' in xfer(t,A,acct(A,sub(1))));
const b=w.q1('icrc7_balance_of',[[acct(A),acct(A,sub(1))]]);
assert.deepEqual(b,[0n,1n]);
''')
seed('C03-empty-revocation-not-logged', 'C03', [(U37, '''    let mut approval_map = token_approvals.unwrap().0;

    if let Some(spender) = &arg.spender {
        approval_map.remove(&WrappedAccount::from(spender.clone()));
    } else {
        approval_map.clear();
    };
''', '''    let mut approval_map = token_approvals.unwrap().0;

    if let Some(spender) = &arg.spender {
        approval_map.remove(&WrappedAccount::from(spender.clone()));
    } else {
        if approval_map.is_empty() {
            return RevokeTokenApprovalResponse::Ok(Nat::from(0u64));
        }
        approval_map.clear();
    };
''')], 'revoking all approvals of a token a second time, when its approval set is present but empty', 'the revocation is reported as successful but no block is appended', '''
const t=mint(A);
const rv=()=>{tick();return w.u('icrc37_revoke_token_approvals',[[{token_id:t,spender:null,from_subaccount:null,memo:null,created_at_time:null}]],A).ok[0].Ok[0];};
const len=()=>w.q1('icrc3_get_blocks',[[{start:0n,length:100n}]]).log_length;
assert('Ok' in approve(t,A,acct(C)));
assert('Ok' in rv());
const n=len();const r=rv();
assert.equal(len(),n+('Ok' in r?1n:0n),'a success without a block');
''')
seed('C05-revoke-all-subaccounts', 'C05', [(U37, '''    let mut approval_map = token_approvals.unwrap().0;

    if let Some(spender) = &arg.spender {
        approval_map.remove(&WrappedAccount::from(spender.clone()));
    } else {
        approval_map.clear();
    };
''', '''    let mut approval_map = token_approvals.unwrap().0;

    if let Some(spender) = &arg.spender {
        approval_map.retain(|account, _| account.0.owner != spender.owner);
    } else {
        approval_map.clear();
    };
''')], 'two approvals on one token for two subaccounts of the same spender principal, one of them revoked', 'the approval of the other subaccount is removed too', '''
const t=mint(A);
assert('Ok' in approve(t,A,acct(C)));
assert('Ok' in approve(t,A,acct(C,sub(1))));
tick();
assert('Ok' in w.u('icrc37_revoke_token_approvals',[[{token_id:t,spender:acct(C,sub(1)),from_subaccount:null,memo:null,created_at_time:null}]],A).ok[0].Ok[0]);
const l=w.q1('icrc37_get_token_approvals',[t,null,null]);
assert.deepEqual(l.map(x=>akey(x.approval_info.spender)),[akey(acct(C))]);
''')
seed('C06-expiry-boundary', 'C06', [(Q37, '''                        trace(&format!("expires_at: {:?}", expires_at));
                        expires_at > current_time
''', '''                        trace(&format!("expires_at: {:?}", expires_at));
                        expires_at >= current_time
''')], 'the query is asked exactly at the nanosecond at which a token approval expires', 'the query answers true although a delegated transfer is refused at that moment', '''
const t=mint(A);
const exp=w.now+1_000_000_000n;
assert('Ok' in approve(t,A,acct(C),null,exp));
w.ic.tick(exp-w.now);
assert.equal(w.now,exp);
assert.deepEqual(w.q1('icrc37_is_approved',[[{token_id:t,spender:acct(C),from_subaccount:null}]]),[false]);
''')
seed('C07-ids-from-supply', 'C07', [(UM, 'let current_token_id = read_state(|state| state.data.last_token_id.clone());', 'let current_token_id = read_state(|state| state.data.total_supply() + Nat::from(1u64));')],
 'minting again after a token was burnt', 'an id that was used before is assigned again', '''
assert.equal(mint(A,A,A),1n);
assert('Ok' in w.u('burn_nft',[1n],A).ok[0]);
const r=mint(B);
assert.equal(r,4n);assert.equal(owner(3n),akey(acct(A)));
''')
seed('C09-window-in-seconds', 'C09', [(U37, '    if created_at_time + tx_window.0.try_into().unwrap_or(0) < current_time {', '''    let second = 1_000_000_000u64;
    let window: u64 = tx_window.0.try_into().unwrap_or(0);
    if created_at_time / second + window.div_ceil(second) < current_time / second {''')],
 'an approval whose creation time is older than the window and the drift by less than a second', 'the stale approval is carried out', '''
const t=mint(A);
w.ic.time=(w.ic.time/1_000_000_000n+100n)*1_000_000_000n+999_000_000n;
const created=w.now-10_000_000_000n-900_000_000n;
const r=w.u('icrc37_approve_tokens',[[{token_id:t,approval_info:{spender:acct(C),from_subaccount:null,expires_at:null,memo:null,created_at_time:created}}]],A).ok[0].Ok[0];
assert(!('Ok' in r),'a stale approval was carried out');
assert.equal(w.q1('icrc37_get_token_approvals',[t,null,null]).length,0);
''')
seed('C10-page-restarts', 'C10', [(Q7, '''        let mut tokens: Vec<Nat> = state.data.tokens_ids_of_account(&account);
        tokens.sort();
        let start_index = tokens
            .iter()
            .position(|id| id > &prev)
            .unwrap_or(tokens.len());
''', '''        let mut tokens: Vec<Nat> = state.data.tokens_ids_of_account(&account);
        tokens.sort();
        let start_index = tokens
            .iter()
            .position(|id| id == &prev)
            .map(|last| last + 1)
            .unwrap_or(0);
''')], 'the last token of a page leaves the account before the next page is asked for', 'the next page starts from the beginning again', '''
mint(A,A,A,A);
assert.deepEqual(w.q1('icrc7_tokens_of',[acct(A),null,2n]),[1n,2n]);
assert('Ok' in xfer(2n,A,acct(B)));
assert.deepEqual(w.q1('icrc7_tokens_of',[acct(A),2n,2n]),[3n,4n]);
''')
seed('C11-empty-update-keeps-metadata', 'C11', [('src/core_nft/src/types/metadata.rs', '''        self.data
            .remove(&WrappedNat(nft_id.clone().unwrap_or(Nat::from(0u64))));

        for (key, value) in datas.iter() {''', '''        if !datas.is_empty() {
            self.data
                .remove(&WrappedNat(nft_id.clone().unwrap_or(Nat::from(0u64))));
        }

        for (key, value) in datas.iter() {''')], 'a metadata update with an empty set of pairs on a token that has metadata', 'the old metadata is still reported after the successful update', '''
const t=w.u('mint',[{mint_requests:[{token_owner:acct(A),metadata:[['a',{Nat:1n}]],memo:null}]}],A).ok[0].Ok;
assert('Ok' in w.u('update_nft_metadata',[{token_id:t,metadata:[]}],A).ok[0]);
assert.equal(canon(w.q1('icrc7_token_metadata',[[t]])),'[[]]');
''')
seed('C08-double-grant', 'C08', [('src/core_nft/src/types/permissions.rs', '            permissions.retain(|p| p != permission);', '''            if let Some(position) = permissions.iter().position(|p| p == permission) {
                permissions.swap_remove(position);
            }''')], 'the same permission is granted twice to a principal and then revoked once', 'the principal still holds the revoked permission', '''
const g={principal:P(B),permission:'Minting'};
assert('Ok' in w.u('grant_permission',[g],A).ok[0]);
assert('Ok' in w.u('grant_permission',[g],A).ok[0]);
assert('Ok' in w.u('revoke_permission',[g],A).ok[0]);
assert.deepEqual(w.q1('has_permission',[g],A),{Ok:false});
''')
seed('C17-unknown-token-skipped', 'C17', [(Q7, '''            None => {
                ret.push(None);
            }
        }
    }

    ret
}
''', '''            None if !ret.is_empty() => {}
            None => {
                ret.push(None);
            }
        }
    }

    ret
}
''')], 'a metadata query naming an existing token and, after it, one that does not exist', 'there are fewer answers than requests, so later answers describe other tokens', '''
mint(A,A);
assert.equal(w.q1('icrc7_token_metadata',[[1n,9n]]).length,2);
assert.equal(w.q1('icrc7_token_metadata',[[9n,1n]]).length,2);
''')
seed('C18-same-time-approvals-merged', 'C18', [(Q37, '''            all_approvals
                .iter()
                .position(|approval| {
                    approval.approval_info.spender == prev_approval.approval_info.spender
                })
                .map(|pos| pos + 1)
                .unwrap_or(0)
        } else {
            0
        };

        let paginated_approvals = all_approvals
            .iter()
''', '''            all_approvals
                .iter()
                .position(|approval| {
                    approval.approval_info.spender == prev_approval.approval_info.spender
                })
                .map(|pos| pos + 1)
                .unwrap_or(0)
        } else {
            all_approvals.dedup_by_key(|approval| approval.approval_info.created_at_time);
            0
        };

        let paginated_approvals = all_approvals
            .iter()
''')], 'two approvals on one token stored at the same ledger time, as by one batch call', 'the listing leaves out one of them', '''
const t=mint(A);
const ap=s=>({token_id:t,approval_info:{spender:acct(s),from_subaccount:null,expires_at:null,memo:null,created_at_time:w.now}});
const r=w.u('icrc37_approve_tokens',[[ap(B),ap(C)]],A).ok[0].Ok;
assert(r.every(x=>'Ok' in x));
assert.equal(w.q1('icrc37_get_token_approvals',[t,null,10n]).length,2);
''')
seed('C19-max-take-clamps-default', 'C19', [(UM, '            state.data.max_take_value = Some(max_take_value);', '''            if let Some(default_take_value) = &state.data.default_take_value {
                if *default_take_value > max_take_value {
                    state.data.default_take_value = Some(max_take_value.clone());
                }
            }
            state.data.max_take_value = Some(max_take_value);''')],
 'the maximum page size is lowered below a default page size set earlier', 'the default page size, which the update did not name, changes', '''
assert('Ok' in w.u('update_collection_metadata',[{default_take_value:50n}],A).ok[0]);
assert('Ok' in w.u('update_collection_metadata',[{max_take_value:20n}],A).ok[0]);
assert.equal(w.q1('icrc7_default_take_value',[]),50n);
''')
seed('C20-memo-check-stops-early', 'C20', [(UM, '    for mint_request in &req.mint_requests {', '    for mint_request in req.mint_requests.iter().take_while(|r| r.memo.is_some()) {')],
 'a batch mint in which a request without a memo precedes one with an oversized memo', 'the oversized memo is not noticed and the tokens are minted', '''
assert('Ok' in w.u('update_collection_metadata',[{max_memo_size:4n}],A).ok[0]);
const q=m=>({token_owner:acct(A),metadata:[],memo:m});
const r=w.u('mint',[{mint_requests:[q(null),q(Buffer.alloc(5,65))]}],A).ok[0];
assert('Err' in r,'minted with an oversized memo');
assert.equal(w.q1('icrc7_total_supply',[]),0n);
''')
seed('C16-pending-uploads-dropped', 'C16', [('src/core_nft/src/lifecycle/post_upgrade.rs', '            state.env.set_version(upgrade_args.version);', '''            state
                .internal_filestorage
                .map
                .retain(|_, upload| upload.state != bity_ic_storage_canister_api::types::storage::UploadState::Init);
            state.env.set_version(upgrade_args.version);''')],
 'an upgrade while an upload is registered but has no chunk yet', 'the registered upload is lost', '''
const r=w.u('init_upload',[{file_path:'/a',file_hash:'h',file_size:3n,chunk_size:null}],A).ok[0];
assert('Ok' in r,canon(r));
assert(w.upgrade().ok);
assert.equal(canon(w.q1('get_all_uploads',[null,null],A)),'{"Ok":[["/a",{"Init":null}]]}');
''')

seed('C13-progress-before-confirmation', 'C13', [(UM, """    match canister.store_chunk(data.clone()).await {
        Ok(_) => {}
        Err(e) => {
            trace(&format!("Error storing chunk: {:?}", e));
            return Err(e);
        }
    }
    mutate_state(|state| {
        state.internal_filestorage.insert(
            data.file_path.clone(),
            InternalFilestorageData {
                init_timestamp: init_timestamp,
                state: UploadState::InProgress,
                canister: canister_id,
                path: file_path,
            },
        );
    });
""", """    mutate_state(|state| {
        state.internal_filestorage.insert(
            data.file_path.clone(),
            InternalFilestorageData {
                init_timestamp: init_timestamp,
                state: UploadState::InProgress,
                canister: canister_id,
                path: file_path,
            },
        );
    });
    match canister.store_chunk(data.clone()).await {
        Ok(_) => {}
        Err(e) => {
            trace(&format!("Error storing chunk: {:?}", e));
            return Err(e);
        }
    }
""")], 'the storage canister refuses the first chunk of an upload', 'the upload counts as in progress although no chunk was accepted, so it can be finalized empty', """
assert('Ok' in w.u('init_upload',[{file_path:'/a',file_hash:'h',file_size:3n,chunk_size:null}],A).ok[0]);
w.fault={method:'store_chunk',kind:'reject',code:4};
const r=w.u('store_chunk',[{file_path:'/a',chunk_id:0n,chunk_data:Buffer.from('abc')}],A);
w.fault=null;
assert(!r.ok||'Err' in r.ok[0],canon(r));
assert.equal(canon(w.q1('get_upload_status',['/a'],A)),'{"Ok":{"Init":null}}');
""")
seed('C14-lock-not-kept', 'C14', [(UM, """    let _guard_principal = GuardManagement::new(caller)
        .map_err(|_| store_chunk::StoreChunkError::ConcurrentManagementCall)?;""", """    let _ = GuardManagement::new(caller)
        .map_err(|_| store_chunk::StoreChunkError::ConcurrentManagementCall)?;""")], 'a second management call arriving while the storage canister has not yet answered a chunk', 'the lock is given up at once, so the second call is carried out in between', """
const {CORE}=require('./world.js');
assert('Ok' in w.u('init_upload',[{file_path:'/a',file_hash:'h',file_size:3n,chunk_size:null}],A).ok[0]);
w.ic.hold=m=>m.id!=='0';
const s=w.ic.submit(CORE,'store_chunk',w.enc('store_chunk',[{file_path:'/a',chunk_id:0n,chunk_data:Buffer.from('abc')}]),A);
w.ic.run();
assert(!s.res,'the storage canister was not called');
const r=w.u('grant_permission',[{principal:P(B),permission:'Minting'}],A);
assert(r.ok&&r.ok[0].Err&&'ConcurrentManagementCall' in r.ok[0].Err,canon(r));
w.ic.hold=null;w.ic.release();w.ic.run();
assert(s.res);
assert('Ok' in w.u('grant_permission',[{principal:P(B),permission:'Minting'}],A).ok[0]);
""")
seed('C15-refusal-clears-history', 'C15', [('src/core_nft/src/guards.rs', """            let oldest_call = call_history.first().unwrap();
            let time_until_next_allowed = SLIDING_WINDOW_DURATION_NS - (current_time - oldest_call);
""", """            let oldest_call = call_history.first().unwrap().clone();
            let time_until_next_allowed = SLIDING_WINDOW_DURATION_NS - (current_time - oldest_call);
            call_history.retain(|&timestamp| timestamp != oldest_call);
""")], 'more than five calls on one token within 60 ms, the sixth being refused', 'a refused call forgets the oldest admitted ones, so the seventh is admitted within the same window', """
const t=mint(A);tick();
const move=()=>w.u('icrc7_transfer',[[{token_id:t,to:acct(B),memo:null,from_subaccount:null,created_at_time:null}]],C);
// C owns nothing, every attempt is refused, but the first five are admitted
const ans=[];for(let i=0;i<9;i++)ans.push(canon(move()));
const first=ans[0],refused=ans[5];
assert.notEqual(first,refused,'six calls in one instant were admitted');
for(let i=0;i<5;i++)assert.equal(ans[i],first);
for(let i=5;i<9;i++)assert.equal(ans[i],refused,'call '+(i+1)+' was admitted within the same window');
""")
IX = 'src/index_icrc7/src/'
IPRE = '''
const {IWorld,block,pid,canon:cn,byAcct,byTok,byType}=require('./iworld.js');
const w=new IWorld(process.argv[2]);const [A1,B1,C1]=[1,2,3].map(pid);
const ids=(f,o={})=>{const g=w.get({filters:f,...o});assert(g.ids,'query failed: '+g.rej);return g.ids;};
'''
def iseed(*a, **k): seed(*a, pre=IPRE, crate='index_icrc7', **k)
iseed('I01-receiver-of-delegated-transfer-lost', 'I01', [(IX + 'blocks.rs', '''                    if let Some(ICRC3Value::Text(from)) = tx.get("from") {
                        if let Ok(account) = WrappedAccount::from_str(from) {
                            accounts.push(account);
                        }
                    }
                    if let Some(ICRC3Value::Text(spender)) = tx.get("spender") {
                        if let Ok(account) = WrappedAccount::from_str(spender) {
                            accounts.push(account);
                        }
                    }
                    if let Some(ICRC3Value::Text(to)) = tx.get("to") {
                        if let Ok(account) = WrappedAccount::from_str(to) {
                            accounts.push(account);
                        }
                    }
''', '''                    let from = match tx.get("from") {
                        Some(ICRC3Value::Text(from)) => WrappedAccount::from_str(from).ok(),
                        _ => None,
                    };
                    let spender = match tx.get("spender") {
                        Some(ICRC3Value::Text(spender)) => WrappedAccount::from_str(spender).ok(),
                        _ => None,
                    };
                    let to = match tx.get("to") {
                        Some(ICRC3Value::Text(to)) => WrappedAccount::from_str(to).ok(),
                        _ => None,
                    };
                    accounts.extend(from);
                    accounts.extend(spender.or(to));
''')], 'a delegated transfer whose spender is not the account the token goes to',
 'the block is not listed under the account that received the token', '''
w.blocks.push(block('7mint',{tid:1,to:A1}),block('37xfer',{tid:1,from:A1,spender:C1,to:B1}));
w.minute();
assert.equal(w.progress,2);
assert.deepEqual(ids([byAcct(C1)]),[1]);
assert.deepEqual(ids([byAcct(B1)]),[1],'the receiver of a delegated transfer does not find its block');
''')
iseed('I02-third-filter-narrows-second-only', 'I02', [(IX + 'update/get_blocks.rs', '''        for filter_result in filter_results.iter().skip(1) {
            result.retain(|id| filter_result.contains(id));
        }
''', '''        // start from the most selective filters
        for pair in filter_results[1..].chunks(2) {
            let (first, second) = (&pair[0], &pair[pair.len() - 1]);
            let smaller = if first.len() <= second.len() { first } else { second };
            result.retain(|id| smaller.contains(id));
        }
''')], 'a query with three filters where the second and third differ',
 'blocks that the longer of two filters does not list are returned', '''
w.blocks.push(block('7mint',{tid:1,to:A1}),block('7xfer',{tid:1,from:A1,to:B1}),block('7mint',{tid:2,to:B1}),block('7xfer',{tid:2,from:B1,to:A1}),block('7mint',{tid:3,to:B1}),block('7xfer',{tid:1,from:B1,to:C1}));
w.minute();
assert.equal(w.progress,6);
assert.deepEqual(ids([byAcct(A1),byAcct(B1)]),[1,3]);
assert.deepEqual(ids([byAcct(A1),byAcct(B1),byTok(1)]),[1]);
assert.deepEqual(ids([byAcct(B1),byTok(1),byType('7mint')]),[],'a block missing from one filter is returned');
assert.deepEqual(ids([byAcct(B1),byType('7mint'),byTok(1)]),[]);
''')
iseed('I03-long-runs-split', 'I03', [(IX + 'blocks.rs', '''    for i in 1..block_ids.len() {
        if block_ids[i] != block_ids[i - 1] + 1 {
            // Non-consecutive, create chunk from start_idx to i-1
            chunks.push(block_ids[start_idx..i].to_vec());
            start_idx = i;
        }
    }
''', '''    for i in 1..block_ids.len() {
        if block_ids[i] != block_ids[i - 1] + 1 {
            // Non-consecutive, create chunk from start_idx to i-1
            chunks.push(block_ids[start_idx..i].to_vec());
            start_idx = i;
        } else if i - start_idx > 100 {
            // keep requests to the ledger small
            chunks.push(block_ids[start_idx..=i].to_vec());
            start_idx = i;
        }
    }
''')], 'a request for more than a hundred consecutive blocks that are not cached',
 'the block at the border of two ranges is requested and returned twice', '''
for(let i=0;i<140;i++)w.blocks.push(block('7mint',{tid:i,to:A1}));
const g=w.get({start:0,length:140});
assert.deepEqual(g.ids,[...Array(140).keys()],'blocks are repeated: '+g.ids);
''')
iseed('I04-archived-blocks-cached-under-range-start', 'I04', [(IX + 'blocks.rs', '''            for block in archive_blocks.blocks {
                if let Ok(block_id) = u64::try_from(&block.id.0) {
                    insert_value(
                        block_id,
''', '''            for (offset, block) in archive_blocks.blocks.into_iter().enumerate() {
                if u64::try_from(&block.id.0).is_ok() {
                    insert_value(
                        start + offset as u64,
''')], 'two archives (or two archived ranges) answer one request, and the same blocks are asked for again',
 'blocks of the second archived range are cached under the ids of the first, and later returned for them', '''
w.archived=4;for(let i=0;i<6;i++)w.blocks.push(block('7mint',{tid:i,to:A1}));
// the ledger names two archived ranges for one request
const {candid,LEDGER,ARCH}=require('./iworld.js');const fs=require('fs'),path=require('path');
const LD=candid.parse(fs.readFileSync(path.join(__dirname,'ledger.did'),'utf8'));
w.ic.addMock(LEDGER,(m,arg)=>{const req=candid.decode(arg)[0];const out=[],ar=[];
  for(const{start,length}of req)for(let i=start;i<start+length&&i<6n;i++){if(i<2n||i>=2n&&i<4n)ar.push(i);else out.push({id:i,block:w.blocks[Number(i)]});}
  const cb={func:[ARCH,'icrc3_get_blocks']};const rg=(a,b)=>{const x=ar.filter(i=>i>=a&&i<b);return x.length?[{args:[{start:x[0],length:BigInt(x.length)}],callback:cb}]:[];};
  return candid.encode(LD,LD.svc.icrc3_get_blocks.ret,[{log_length:6n,blocks:out,archived_blocks:[...rg(0n,2n),...rg(2n,4n)]}]);});
const g1=w.get({start:0,length:6});assert.deepEqual(g1.ids,[0,1,2,3,4,5]);
const g2=w.get({start:0,length:6});
assert.deepEqual(g2.ids,[0,1,2,3,4,5]);
for(const b of g2.blocks)assert.equal(cn(b.block),cn(w.blocks[Number(b.id)]),'block '+b.id+' from the cache is another block');
''')
iseed('I05-unindexable-blocks-skipped', 'I05', [(IX + 'jobs.rs', '''                    Err(e) => {
                        break;
                    }
''', '''                    Err(_) => {
                        // a block of a kind this index does not know
                        last_block_id += 1;
                    }
''')], 'the ledger holds a block of a kind the index does not know, with further blocks behind it',
 'the counter passes a block that was never indexed', '''
const b=block('7mint',{tid:2,to:A1});b.Map[0][1]={Text:'9other'};
w.blocks.push(block('7mint',{tid:1,to:A1}),b,block('7mint',{tid:3,to:A1}));
w.minute();
assert.equal(w.progress,1,'the counter passed a block that is not indexed');
assert.deepEqual(ids([byTok(3)]),[]);
''')
TY = 'src/core_nft/src/types/'
seed('C12-creation-time-in-microseconds', 'C12', [(TY + 'icrc37.rs', '''    #[n(3)]
    pub created_at: TimestampNanos,
''', '''    #[cbor(n(3), with = "micros")]
    pub created_at: TimestampNanos,
'''), (TY + 'icrc37.rs', '''#[derive(Encode, Decode, CandidType, Serialize, Deserialize, Clone, Debug)]
pub struct Approval {
''', '''/// Creation times are kept in microseconds, which takes fewer bytes.
mod micros {
    pub fn encode<C, W: minicbor::encode::Write>(
        v: &u64,
        e: &mut minicbor::Encoder<W>,
        _: &mut C,
    ) -> Result<(), minicbor::encode::Error<W::Error>> {
        e.u64(*v / 1_000)?.ok()
    }

    pub fn decode<'b, C>(
        d: &mut minicbor::Decoder<'b>,
        _: &mut C,
    ) -> Result<u64, minicbor::decode::Error> {
        Ok(d.u64()? * 1_000)
    }
}

#[derive(Encode, Decode, CandidType, Serialize, Deserialize, Clone, Debug)]
pub struct Approval {
''')], 'an approval created at a time that is not a whole number of microseconds',
 'an approval read back from stable memory has another creation time than the one stored', '''
const t=mint(A);w.ic.tick(7);
const at=w.now+100_000_000n;
assert('Ok' in approve(t,A,acct(C)));
const l=w.q1('icrc37_get_token_approvals',[t,null,null]);
const got=JSON.stringify(l,(k,v)=>typeof v==='bigint'?String(v):v);
assert(got.includes(String(w.now)),'approval created at '+w.now+' is reported as '+got);
''')
seed('C12-short-subaccounts-left-aligned', 'C12', [(TY + 'wrapped_types.rs', '            Some(subaccount) => e.bytes(subaccount.as_slice())?,\n', '''            Some(subaccount) => {
                // leading zeros are not stored
                let first = subaccount.iter().position(|b| *b != 0).unwrap_or(31);
                e.bytes(&subaccount[first..])?
            }
'''), (TY + 'wrapped_types.rs', '                subaccount_array.copy_from_slice(&subaccount);\n', '''                subaccount_array[..subaccount.len()].copy_from_slice(&subaccount);
''')], 'a spender or owner whose subaccount starts with a zero byte',
 'an account read back from stable memory has another subaccount, so its approvals cannot be used', '''
const s=Buffer.alloc(32);s[31]=7;
const t=mint(A);const sp={owner:P(C),subaccount:s};
assert('Ok' in approve(t,A,sp));
const r=xferfrom(t,C,acct(A),acct(B),s);
assert('Ok' in r,'an approved spender is refused: '+JSON.stringify(r,(k,v)=>typeof v==='bigint'?String(v):v));
''')
iseed('I06-naturals-through-signed-integers', 'I06', [(IX + 'wrapped_values.rs', '''                e.array(2)?
                    .u8(2)?
                    .u64(u64::try_from(n.0.clone()).unwrap())?;
''', '''                // naturals and integers share one form, told apart by the tag
                let n = u64::try_from(n.0.clone()).unwrap();
                e.array(2)?.u8(2)?.i64(n as i64)?;
'''), (IX + 'wrapped_values.rs', '''                let n = d.u64()?;
                Value::Nat(n.into())
''', '''                let n = d.i64()?;
                Value::Nat(n.unsigned_abs().into())
''')], 'a logged block with a natural of 2^63 or more inside, asked for twice',
 'a cached block comes back with another number than the ledger has', '''
w.blocks.push(block('7update_token',{tid:1,from:A1,extra:{meta:{Map:[['serial',{Array:[{Nat:2n**64n-1n}]}]]}}}));
w.minute();
const g1=w.get({start:0,length:1}),g2=w.get({start:0,length:1});
assert.equal(cn(g1.blocks[0].block),cn(w.blocks[0]));
assert.equal(cn(g2.blocks[0].block),cn(w.blocks[0]),'the cached block differs from the ledger');
''')
UP = 'cmdline/src/calls/uploads.rs'
def kseed(sid, prop, edits, needs, breaks, cases): SEEDS[sid] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, kcases=cases)
kseed('K01-chunk-numbers-of-sixteen-bits', 'K01', [(UP, '                chunk_id: Nat::from(i),\n', '                chunk_id: Nat::from(i as u16),\n')],
 'a file of more than 65536 chunks', 'the numbers of the chunks start again from zero', ['10 3', '66000 1'])
kseed('K01-hash-of-first-sixteen-megabytes', 'K01', [(UP, """    file.read_to_end(&mut buffer)?;
    let hash""", """    Read::by_ref(&mut file)
        .take(16 * 1024 * 1024)
        .read_to_end(&mut buffer)?;
    let hash""")],
 'a file of more than 16 MiB', 'the announced hash is not the hash of the whole file', ['10 3', '17000000 2000000'])
