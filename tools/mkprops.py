import json
P=[]
SP='solana-program/src/'
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["account data, lamports and token balances after each transaction","transaction result"]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

NOBUILD="The on-chain test crate needs an SBF binary and is not part of the stable suite; the stable unit tests only check struct sizes and a few client helpers, and never execute an instruction. "
ST=[("escrowed_orca_amount","total ORCA promised to unstakers and not yet paid",SP+"state/state.rs State"),
    ("PendingWithdraw","one outstanding claim (owner, index, amount, maturity)",SP+"state/pending_withdraw.rs")]

p("C01","Escrow total equals the sum of all outstanding claims",
 "At every point after initialization, the escrowed ORCA total recorded by the staking program equals the sum of the ORCA amounts of all unstake claims that have been created and not yet redeemed. Unstaking adds exactly the new claim's amount, redeeming subtracts exactly the redeemed amount, and nothing else changes the total.",
 ["histories","inputs"],"all sequences of transactions (one or several instructions each) by any users, with any amounts, indices, interleavings of stakes, unstakes, redemptions, configuration changes and donations",
 NOBUILD+"Even that crate samples a handful of histories; the invariant relates one total to arbitrarily many claim accounts over unbounded histories.",
 [SP+"instructions/unstake.rs",SP+"instructions/withdraw.rs",SP+"state/state.rs",SP+"state/pending_withdraw.rs"],
 [("escrow increment on unstake",SP+"instructions/unstake.rs process_instruction"),("escrow decrement on withdraw",SP+"instructions/withdraw.rs process_instruction")],ST)
p("C02","The vault always covers every outstanding claim",
 "The ORCA held in the staking vault is never less than the total owed to outstanding unstake claims, and while any xORCA exists the non-escrowed remainder is at least as large as the xORCA supply. No sequence of operations lets anyone take ORCA that backs someone else's claim.",
 ["histories","inputs"],"all histories from initialization: any users, amounts, prices, donations and interleavings",
 NOBUILD+"Solvency is an inductive invariant over rounding and price ratios; sampled histories do not settle rounding drift over long sequences.",
 [SP+"instructions/stake.rs",SP+"instructions/unstake.rs",SP+"instructions/withdraw.rs",SP+"util/math.rs"],
 [("floor rounding with virtual offsets",SP+"util/math.rs"),("vault minus escrow used as the pricing base",SP+"instructions/stake.rs, unstake.rs"),("escrow pre-check",SP+"instructions/withdraw.rs")],ST)
p("C03","Stake mints exactly the floor price and takes exactly the staked ORCA",
 "A valid stake of a ORCA moves exactly a from the staker's ORCA account into the vault and mints to the staker exactly a when no xORCA or no non-escrowed ORCA exists, otherwise floor(a*(supply+100)/(nonEscrowed+100)), where nonEscrowed is the vault balance minus the escrow before the stake. A stake that would mint zero, or that exceeds the staker's balance, is rejected without effect; any other well-formed stake succeeds.",
 ["inputs","histories"],"all u64 amounts, all reachable (vault, escrow, supply) states, all legitimate token accounts of the staker",
 NOBUILD+"The price is a function of four 64-bit quantities with rounding and thresholds; a few nominal points do not determine it.",
 [SP+"instructions/stake.rs",SP+"util/math.rs"],[("convert_orca_to_xorca",SP+"util/math.rs"),("zero-output rejection",SP+"instructions/stake.rs")],
 [("virtual offsets","100 added to both supply and non-escrowed ORCA",SP+"util/math.rs")])
p("C04","Unstake records exactly the floor redemption value and burns exactly the input",
 "A valid unstake of x xORCA burns exactly x from the unstaker and creates one claim worth exactly floor(x*(nonEscrowed+100)/(supply+100)), computed from the pool before the burn, without moving any ORCA. An unstake that would yield zero, exceeds the unstaker's balance, or targets an index already in use is rejected without effect; any other well-formed unstake succeeds.",
 ["inputs","histories"],"all u64 amounts, all 256 indices, all reachable pool states",
 NOBUILD+"Exactness over 64-bit ranges and over every reachable pool/escrow combination is beyond sampled examples.",
 [SP+"instructions/unstake.rs",SP+"util/math.rs"],[("convert_xorca_to_orca",SP+"util/math.rs"),("claim creation",SP+"instructions/unstake.rs"),("fresh-account requirement",SP+"instructions/unstake.rs")],ST)
p("C05","The redemption price never falls and round trips never profit",
 "While xORCA is outstanding, no operation lowers the redemption price (nonEscrowed+100)/(supply+100), so nobody's xORCA loses value through the actions of others. Staking into a non-empty pool and immediately unstaking never yields more ORCA than was put in.",
 ["histories","inputs"],"all histories and amounts, including donations made directly to the vault between a victim's operations (inflation attack) and dust amounts chosen for rounding",
 NOBUILD+"It is a relation between consecutive states for all amounts; rounding in the wrong direction only shows for particular ratios.",
 [SP+"util/math.rs",SP+"instructions/stake.rs",SP+"instructions/unstake.rs"],[("floor division in both directions",SP+"util/math.rs"),("virtual offset defence",SP+"util/math.rs")])
p("C06","Claims mature exactly at unstake time plus the cooldown then in force",
 "Every claim's maturity is the ledger time of the unstake plus the cooldown period in force at that moment, and is never changed afterwards by configuration changes or by anyone's operations. Redemption is rejected at every time strictly before maturity and accepted from the maturity instant onward.",
 ["histories","inputs"],"all times, cooldown values (0 to the 64-bit maximum), configuration changes before and after the unstake, redemption attempts around the maturity instant",
 NOBUILD+"Boundary instants, later configuration changes and large cooldowns multiply out to histories the tests do not visit.",
 [SP+"instructions/unstake.rs",SP+"instructions/withdraw.rs",SP+"instructions/set.rs"],[("withdrawable_timestamp computation",SP+"instructions/unstake.rs"),("timestamp comparison",SP+"instructions/withdraw.rs")],
 [("withdrawable_timestamp","maturity instant of a claim",SP+"state/pending_withdraw.rs")])
p("C07","A claim is redeemed at most once, in full, only to its owner",
 "Redeeming a claim pays exactly its recorded ORCA amount from the vault to a token account owned by the claim's owner, removes the claim, and returns all of the claim account's lamports to the owner. A redeemed claim can never be redeemed again, not even within the same transaction or after lamports are sent back to its address.",
 ["histories","inputs"],"all histories, including several instructions in one transaction, revival of closed accounts, re-use of an index, and redemption in any order",
 NOBUILD+"Double redemption needs specific multi-instruction sequences; the space of histories is unbounded.",
 [SP+"instructions/withdraw.rs",SP+"util/account.rs"],[("close_program_account",SP+"util/account.rs"),("transfer of the recorded amount",SP+"instructions/withdraw.rs")],ST)
p("C08","A matured claim can always be redeemed by its owner",
 "Once a claim has matured, its owner can redeem it with a well-formed request, whatever other users, donors or the configuration authority have done since, in whatever order other claims were redeemed, and whichever of the owner's ORCA token accounts is named as destination. Claims at all 256 indices are redeemable.",
 ["histories","inputs"],"all reachable histories, all owners, all indices, all later operations by others",
 NOBUILD+"It quantifies over every reachable state; a test shows one redeemable claim, not the absence of a state that strands one.",
 [SP+"instructions/withdraw.rs",SP+"instructions/unstake.rs",SP+"state/pending_withdraw.rs"],[("escrow reservation",SP+"instructions/unstake.rs"),("stored bump used for re-derivation",SP+"instructions/withdraw.rs")],ST)
p("C09","Nobody's tokens or claims change without their signature",
 "A user's ORCA, xORCA and claims are reduced, created or redeemed only by instructions signed by that user; an instruction signed by one user never debits another user's token accounts, never mints, pays or refunds to accounts of a third party in place of the signer, and never alters another user's claims.",
 ["inputs","histories"],"all account lists an attacker can build: other users' token accounts (with or without delegation), other users' claims, missing signatures, aliased accounts",
 NOBUILD+"The attacker chooses arbitrary account lists; tests enumerate a few substitutions.",
 [SP+"assertions/account.rs",SP+"instructions/stake.rs",SP+"instructions/unstake.rs",SP+"instructions/withdraw.rs"],[("signer role check and token-account owner check",SP+"assertions/account.rs"),("claim address derived from owner and index",SP+"pda.rs")])
p("C10","Only the current update authority changes configuration, and only that field",
 "The cooldown period and the update authority change only through an instruction signed by the update authority in force at that moment; each such instruction changes exactly the requested field to exactly the requested value, takes effect immediately, and a negative cooldown is always rejected. After a handover the old authority has no power and the new one has full power.",
 ["histories","inputs"],"all signers, all 64-bit cooldown values, all sequences of handovers including several in one transaction",
 NOBUILD+"Authority is history-dependent (chains of handovers) and values range over 64 bits.",
 [SP+"instructions/set.rs",SP+"state/state.rs"],[("signer and stored-authority comparison",SP+"instructions/set.rs"),("non-negative cooldown check",SP+"instructions/set.rs")],
 [("update_authority","who may change configuration",SP+"state/state.rs")])
p("C11","Initialization happens once, only by the deployer, with sound preconditions",
 "The staking state is created at most once, only when the designated deployer and the future update authority sign, with a non-negative cooldown; it starts with zero escrow, the given cooldown and authority, and an ORCA vault owned by the program's state. It is refused unless the xORCA mint has zero supply, six decimals, the state as mint authority and no freeze authority, and the ORCA mint has six decimals.",
 ["inputs","configurations","histories"],"all signers, cooldown values, mint configurations, and repeated attempts",
 NOBUILD+"The precondition space (mint fields x signers x prior states) is only sampled.",
 [SP+"instructions/initialize.rs",SP+"lib.rs"],[("deployer check",SP+"instructions/initialize.rs"),("already-initialized check",SP+"instructions/initialize.rs"),("mint checks",SP+"instructions/initialize.rs")])
p("C12","A wrong account in any position is rejected with no effect",
 "Substituting, in any position of any instruction, an account that is not the one the position calls for (a look-alike owned by another program, a copy of the state at another address, another vault-like token account, another mint, another claim, another program) is rejected and leaves every account unchanged. Dropping read/write or signature rights that the position requires, or supplying too few accounts, is likewise rejected.",
 ["inputs","fault_sequences"],"every position of every instruction crossed with every kind of substitute account and every missing right",
 NOBUILD+"The substitution matrix is large and attacker-chosen; tests cover selected cells.",
 [SP+"assertions/account.rs",SP+"instructions/*.rs",SP+"state/*.rs"],[("owner, seeds, address, role and data assertions",SP+"assertions/account.rs"),("stored-bump address verification",SP+"state/state.rs, state/pending_withdraw.rs")])
p("C13","Pre-funding or pre-creating addresses never blocks users or the deployer",
 "Sending lamports to the address of the state, the vault or any future claim, or creating the vault's token account in advance, never prevents initialization or unstaking at that address. The resulting accounts are rent-exempt and the payer is charged exactly the shortfall between the rent-exempt minimum and what is already there.",
 ["histories","inputs"],"all pre-existing lamport amounts (1 up to far above the rent minimum), pre-created vaults, and re-used claim addresses after redemption",
 NOBUILD+"Each amount relative to the rent threshold is a different path, combined with re-use histories.",
 [SP+"util/account.rs",SP+"instructions/initialize.rs",SP+"instructions/unstake.rs"],[("create_account_secure",SP+"util/account.rs"),("idempotent creation of the vault token account",SP+"instructions/initialize.rs")])
p("C14","Extreme magnitudes are handled exactly or rejected, never wrapped",
 "For every combination of 64-bit amounts, balances, supplies, escrow totals, cooldowns and clock times, each instruction either produces the mathematically exact result or is rejected without effect. No intermediate overflow, truncation, sign change or crash ever produces a wrong amount or maturity.",
 ["inputs","configurations"],"all 64-bit values of amounts, vault, escrow, supply, cooldown and time, including states where the vault is smaller than the escrow",
 NOBUILD+"Overflows occur only near type boundaries and for large products; unit tests use small nominal values.",
 [SP+"util/math.rs",SP+"instructions/*.rs"],[("128-bit intermediates and checked conversion",SP+"util/math.rs"),("checked escrow and timestamp arithmetic",SP+"instructions/unstake.rs, withdraw.rs")])
p("C15","Emitted events report exactly what happened",
 "Every successful stake, unstake, redemption and authority change emits exactly one event of its kind whose fields equal the actual amounts, balances after the operation, escrow after the operation, cooldown, index and addresses; other instructions emit none. Events decode with the published client types, whose JSON form reads back as the same event.",
 ["histories","inputs"],"all successful operations in all reachable states, including several operations per transaction",
 NOBUILD+"Indexers rely on every field in every state; no stable test observes an event.",
 [SP+"event.rs",SP+"instructions/*.rs","rust-client/src/generated/types/event.rs","js-client/src/generated/types/event.ts"],[("Event::emit",SP+"event.rs")],None,["program data log of each transaction"])
p("C16","Malformed, unknown or misrouted instructions are rejected with no effect",
 "Instruction data that is empty, has an unknown instruction or sub-instruction tag, or is shorter than its arguments is rejected with the documented decoding error, and execution under any program id other than the program's own is rejected; no account changes. Well-formed data is interpreted exactly by its documented layout.",
 ["inputs"],"all byte strings as instruction data",
 NOBUILD+"All byte strings; no stable test dispatches instruction data.",
 [SP+"entrypoint.rs",SP+"instructions/mod.rs"],[("Borsh decoding of the instruction enum",SP+"instructions/mod.rs"),("program id check",SP+"entrypoint.rs")])
p("C17","Operations touch nothing but what they are documented to touch",
 "Each successful operation changes only the balances, claim, configuration field and lamports it is documented to change; all other accounts, other claims, other configuration fields and the addresses recorded in state stay as they were, and ORCA is neither created nor destroyed. A rejected transaction changes nothing.",
 ["histories","inputs"],"all operations in all reachable states, comparing every account involved before and after",
 NOBUILD+"Frame conditions quantify over everything not mentioned; tests assert selected fields.",
 [SP+"instructions/*.rs",SP+"util/account.rs"],[("field-wise updates of the state account",SP+"instructions/*.rs")])
p("C18","Client conversion helpers predict the program exactly",
 "For every 64-bit amount, non-escrowed ORCA and supply, the Rust and JavaScript conversion helpers return exactly the amount the on-chain program would mint or record, and fail for a redemption from an empty pool. The Rust helpers also fail exactly where the program rejects for arithmetic reasons.",
 ["inputs"],"all triples of 64-bit values",
 "The unit tests check five nominal points of the Rust helper; the JavaScript tests are not run at all, and parity with the program is not tested anywhere.",
 ["rust-client/src/conversion.rs","js-client/src/utils/conversion.ts",SP+"util/math.rs"],[("duplicated formulae","rust-client/src/conversion.rs, js-client/src/utils/conversion.ts, "+SP+"util/math.rs")],None,["return values of the client helpers"])
p("C19","Clients derive the same addresses the program accepts",
 "For every staker and every index 0-255, the state, vault and claim addresses derived by the Rust and JavaScript clients are the ones the on-chain program uses and accepts.",
 ["inputs"],"all public keys and all 256 indices, any state/token-program/mint arguments of the vault derivation",
 "One fixed key and index is compared with a constant; the derivation is a function of the key, the index and the bump search.",
 ["rust-client/src/pda/mod.rs","js-client/src/utils/index.ts",SP+"pda.rs"],[("seed lists","rust-client/src/pda/mod.rs, js-client/src/utils/index.ts, "+SP+"pda.rs")],None,["derived addresses and bumps"])
p("C20","Client instruction builders produce the instruction the caller asked for",
 "For every operation and argument values, the instruction built by the Rust and JavaScript clients names the staking program (or the one the caller configures), lists the accounts in the order and with the signer/writable rights the program requires, and carries data that the program decodes to the same operation and arguments, so that it has the requested on-chain effect.",
 ["inputs"],"all instruction kinds, all argument values, builders with explicit and default accounts, extra remaining accounts",
 "No test builds an instruction with the client and runs it against the program in the stable suite.",
 ["rust-client/src/generated/instructions/*.rs","js-client/src/generated/instructions/*.ts",SP+"instructions/mod.rs"],[("generated builders","rust-client/src/generated/instructions, js-client/src/generated/instructions")],None,["built instructions and their effect on the program"])
p("C21","Client decoders return exactly what is stored on chain",
 "For every state and claim account the program can produce, and for every token account and mint in the layouts the clients publish, the Rust and JavaScript decoders return exactly the stored field values, encoding them again yields the same bytes, truncated data is rejected instead of misread, and the JSON form the Rust client offers reads back as the same record.",
 ["inputs","histories"],"all field values, all account bytes the program writes, all truncations",
 "The layout tests use one sample in the program crate only; client decoders are exercised on one fixture they encoded themselves.",
 ["rust-client/src/generated/accounts/*.rs","js-client/src/generated/accounts/*.ts","rust-client/src/generated/types/*.rs",SP+"state/*.rs"],[("Borsh/codec field lists","rust-client/src/generated/accounts, js-client/src/generated/accounts")],None,["decoded values"])
p("C22","Client queries report the ledger faithfully",
 "The pending-claims query returns exactly the staker's outstanding claims whose index is below the requested limit (default 15), in index order and whatever else exists at the other addresses; the state, cooldown, vault and supply queries return the stored values, and the exchange-rate query returns vault balance minus escrow over xORCA supply. Fetching state or claim accounts by address returns, in the order asked, each address's own record, or its absence where the fetch allows for that. Queries and fetches fail only when the required account is missing or malformed or the RPC node does not answer.",
 ["histories","inputs","fault_sequences"],"all ledgers reachable by users (including lamports sent to unused claim addresses), all limits 0-255, missing accounts",
 "The unit tests use one static fixture with three claims and a well-formed ledger.",
 ["rust-client/src/utils/mod.rs","rust-client/src/generated/accounts/*.rs","js-client/src/utils/index.ts"],[("index scan and filtering","rust-client/src/utils/mod.rs fetch_pending_withdraws_for_staker, js-client/src/utils/index.ts fetchPendingWithdrawsForStaker"),("exchange rate computation","rust-client/src/utils/mod.rs, js-client/src/utils/index.ts"),("account fetchers","rust-client/src/generated/accounts/state.rs fetch_*_state, pending_withdraw.rs fetch_*_pending_withdraw, js-client/src/generated/accounts/*.ts fetch*")],None,["results of the query functions against a ledger served over RPC"])
p("C23","Rejections carry the documented error for a reason that applies",
 "Every rejected instruction fails with the program's documented error code for one of the reasons that actually applies to it (or the token/system program's own code when that program refuses), and the clients' error tables map each code to the same meaning. A rejection never surfaces as a crash or as a code for a reason that does not apply.",
 ["inputs","histories"],"all rejected instructions in all reachable states",
 NOBUILD+"Which reason applies depends on the whole state and account list; tests check chosen codes.",
 [SP+"error.rs",SP+"instructions/*.rs","rust-client/src/generated/errors/*.rs","js-client/src/generated/errors/*.ts"],[("ErrorCode table",SP+"error.rs"),("client error tables","rust-client/src/generated/errors, js-client/src/generated/errors")],None,["transaction error code"])
p("C24","Operator scripts send exactly what their arguments ask for",
 "For every ledger and all arguments that are decimal integers, addresses and key files, each transaction script (stake, unstake, withdraw, initialize, set, transfer-orca, transfer-orca-to-vault, update-xorca-mint-authority) sends at most one transaction. It contains exactly the operation named, with the exact amount, index, period or authority given, on the canonical accounts, paid and signed by the given key files, preceded only by creation of the wallet's missing token account. A script sends nothing when the wallet's balance is too small, the claim, the state or the vault it needs is missing, the deployer is not the program's, or a number does not fit the instruction; otherwise, when the program would accept the transaction, it sends it. When a request to the node fails, a script sends that same transaction or nothing.",
 ["inputs","fault_sequences"],"all requests that may fail, all argument values (including numbers beyond 2^53, beyond 64 bits and negative ones), all combinations of existing and missing accounts and balances around the amount",
 "No test runs the scripts; their instruction data, account lists and number parsing are written by hand in each script.",
 ["ts-scripts/stake.ts","ts-scripts/unstake.ts","ts-scripts/withdraw.ts","ts-scripts/initialize.ts","ts-scripts/set.ts","ts-scripts/transfer-orca.ts","ts-scripts/transfer-orca-to-vault.ts","ts-scripts/update-xorca-mint-authority.ts","ts-scripts/constants.ts"],
 [("hand-written instruction data and account lists","ts-scripts/*.ts"),("argument parsing and pre-checks","ts-scripts/*.ts")],None,["transactions sent"])
p("C25","Operator reports show the chain's own figures",
 "The pending-withdraws script lists exactly the claims the staker holds, at any index 0-255 and whatever else exists at the other addresses, each with its index, address, amount, readiness at the current time and times, and with exact totals. The status script shows the stored configuration, the vault balance, escrow, non-escrowed ORCA and supply, and each exchange rate under its own direction: one xORCA is worth (non-escrowed ORCA + 100) / (supply + 100) ORCA, one ORCA the inverse. A report that could not read what it needs shows no list and no rate.",
 ["histories","inputs","fault_sequences"],"all ledgers, all sets of claims, all times, a node that fails at any request, once or for good",
 "No test runs the scripts; the account layouts are decoded by hand at fixed offsets.",
 ["ts-scripts/pending-withdraws.ts","ts-scripts/status.ts","ts-scripts/constants.ts","js-client/src/generated/accounts/state.ts"],
 [("offsets of the claim and state fields","ts-scripts/pending-withdraws.ts"),("rate computation","ts-scripts/status.ts")],None,["printed reports"])
p("C26","Key and upload tools use exactly the bytes they are given",
 "For every argument that is exactly the hex spelling, in either case, of a 32-byte private key or of a 64-byte key pair whose halves belong together, generate-keypair leaves exactly that pair's 64 numbers in the named file of the keypairs folder (generated-keypair.json by default), shows its public key, and changes no other file. For any other argument, or a file that cannot be written, it writes nothing, shows no success and exits with a failure. upload-image uploads exactly once exactly the image's bytes, paid by the key in the key file, to the named network (mainnet if none is named) with the content type its extension stands for, and shows success only then; it uploads nothing when the image or key file is missing, the key file is not a list of 64 numbers, or the network is unknown.",
 ["inputs","fault_sequences"],"all keys, key texts, file names, images and extensions, missing files, files that cannot be written, a service that fails",
 "No test runs the scripts.",
 ["ts-scripts/generate-keypair.ts","ts-scripts/upload-image.ts"],
 [("decoding of the key text","ts-scripts/generate-keypair.ts"),("content type, network and key of the upload","ts-scripts/upload-image.ts")],None,["files written","uploads requested","shown text and exit code"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
