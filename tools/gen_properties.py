#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth is this table)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
PR="program/src/processor.rs"; LB="program/src/lib.rs"; IX="program/src/instruction.rs"; MD="program/src/metadata.rs"; MX="program/src/metaplex.rs"; CU="program/src/mint_customizer/"
CL="clients/cli/src/"

prop("C01","Wrapped supply stays fully backed by the escrow in every history",
 "For every pair of unwrapped mint and wrapped token program, every Token Wrap instruction that succeeds changes the wrapped supply by exactly the amount by which it changes the spendable balance of that pair's escrow, and it touches no other pair's escrow or supply. So in every history of Token Wrap instructions mixed with ordinary token operations (transfers, burns, donations, approvals, fee changes, fee withdrawals, freezes), the wrapped supply never exceeds the escrow balance unless an authority of the unwrapped mint itself removes tokens from the escrow.",
 ["histories","inputs"],"all sequences of program instructions and token operations by users, attackers and mint authorities, from any reachable ledger state, for every supported mint configuration",
 "Tests run one wrap or one unwrap from a hand-built state; none runs a history, a second pair, or a hostile actor between operations.",
 [PR],[("net amount minted equals amount received by escrow",PR+" process_wrap"),("burn then transfer of the same amount",PR+" process_unwrap"),("escrow and authority are PDAs of the pair",LB)],
 ["escrow token account amount","wrapped mint supply"],
 [("escrow.amount","unwrapped tokens held for the pair","ATA of the wrapped mint authority"),("wrapped_mint.supply","claims outstanding","wrapped mint account")])
prop("C02","Wrap moves exactly the stated amount and mints exactly what escrow got",
 "A wrap of amount A succeeds exactly when the pair's accounts are the right ones, A is positive and the token programs would allow both the transfer of A from the source to the escrow and the mint to the recipient; it then debits the source by A, credits the escrow with A less the transfer fee in force in the current epoch, and mints exactly that net amount to the recipient. Nothing else in any account changes, and a wrap that fails changes nothing. The source may not be the escrow itself.",
 ["inputs","configurations"],"all amounts, balances, epochs and fee schedules, both token programs on both sides, and every account or mint extension that affects transfers",
 "Tests use a few fixed amounts and one fee configuration, and compare single fields rather than the whole ledger.",
 [PR],[("fee of the current epoch subtracted",PR+" process_wrap"),("transfer_checked(_with_fee) then mint_to",PR+" process_wrap")],
 ["source, escrow and recipient token accounts","wrapped mint","all other accounts in the ledger"])
prop("C03","Unwrap burns and releases exactly the stated amount",
 "An unwrap of amount A succeeds exactly when the pair's accounts are the right ones, A is positive and the token programs would allow both the burn of A and the transfer of A out of the escrow; it then debits the holder's wrapped account and the wrapped supply by A and the escrow by A, and credits the recipient with A less any transfer fee in force. Nothing else in any account changes, and an unwrap that fails changes nothing.",
 ["inputs","configurations"],"all amounts, balances, epochs and fee schedules, both token programs on both sides, and every account or mint extension that affects transfers",
 "Tests use a few fixed amounts and never compare the whole ledger or the boundary around the balances.",
 [PR],[("burn of amount",PR+" process_unwrap"),("transfer_checked signed by the mint authority PDA",PR+" process_unwrap")],
 ["holder, escrow and recipient token accounts","wrapped mint","all other accounts in the ledger"])
prop("C04","Every holder can always redeem in full",
 "In every state reachable without the unwrapped or wrapped mint's own authorities freezing, pausing or confiscating tokens, every holder of wrapped tokens can unwrap any part of the balance, up to all of it, in one instruction (restrictions holders put on their own accounts aside). After everyone has done so, the wrapped supply is zero.",
 ["histories"],"all reachable states over histories of wraps, unwraps, transfers, donations, approvals, fee changes, mint re-creation and escrow repair by any actors",
 "A test shows one redemption after one wrap; the claim is about every reachable state, including those made by a hostile actor.",
 [PR],[("no state blocks redemption: unwrap depends only on derived accounts",PR+" process_unwrap")],
 ["result of an unwrap of 1, half and all of each holder's balance in each reachable state"])
prop("C05","Only the token account's own authority can wrap from it or unwrap from it",
 "A wrap from an unwrapped account, and an unwrap from a wrapped account, succeeds only if the owner or an approved delegate (within its allowance) of that account signed, or, where that authority is a multisig, at least its threshold of distinct listed members signed; where these are met and the accounts are right, it succeeds. No combination of other signers (other users, mint authority, freeze authority, the program's own derived addresses, the same member repeated) is enough, and the permanent delegate counts only where Token-2022 gives it that power.",
 ["inputs","configurations"],"all authority kinds, all multisig thresholds and member subsets and orders up to the bound, all delegation amounts, all extra-signer sets",
 "Tests cover the owner, one 2-of-3 multisig and a few refusals; not the space of signer subsets and authority kinds.",
 [PR,IX],[("signer flags are passed through to the token program",PR+" process_wrap, process_unwrap"),("multisig accounts collected from trailing accounts",PR+" process_unwrap")],
 ["success or refusal, and every token balance"])
prop("C06","Substituting any account cannot take from or mint to the wrong party",
 "Whatever accounts are passed in whatever positions, and whatever programs or fabricated accounts an attacker supplies, a Token Wrap instruction that succeeds only ever mints wrapped tokens against an equal deposit of the very mint they stand for into that pair's own escrow, only releases from an escrow against an equal burn of that pair's wrapped tokens, only moves or burns tokens of accounts whose authority signed, and only writes mint, backpointer, pointer and metadata accounts that belong to the mints concerned. It never lets a signer privilege of the program's derived addresses reach a program other than the token, metadata or system programs it is meant for.",
 ["inputs","configurations"],"all replacements of any one or two (thorough: three) accounts of each instruction by any account of a rich universe of genuine, foreign and forged accounts, including consistent forged tuples and malicious programs",
 "Tests substitute a single hand-picked wrong account per position; a pair of mutually consistent wrong accounts or a forged program is never tried.",
 [PR,LB,MD],[("address and owner validation in each processor",PR),("token program id checks in CPI builders",PR)],
 ["all token balances, supplies, escrows and lamports of accounts that did not consent","program-owned accounts"])
prop("C07","Addresses are unique per asset and link back to the unwrapped mint",
 "For every unwrapped mint, wrapped token program and deployment id, the published derivation functions and the on-chain program agree on the wrapped mint, its authority, its backpointer, the escrow and the canonical pointer, and different inputs never share an address. A wrapped mint exists only at its derived address, and from the wrapped mint alone one can find its backpointer and through it exactly the unwrapped mint it was derived from.",
 ["inputs","configurations"],"all unwrapped mints, wrapped and unwrapped token programs and deployment ids in the enumerated product, on-chain and in the library",
 "Tests derive the expected address with the same function the program uses, so a consistent change on both sides goes unseen; injectivity is never tested.",
 [LB,PR,"program/src/state.rs"],[("PDA seeds per kind of address",LB),("backpointer write",PR+" process_create_mint")],
 ["addresses returned by the library","accounts created on chain","backpointer data"])
prop("C08","Creating a wrapped mint yields exactly the documented mint",
 "Whenever mint creation succeeds on a fresh pair, the wrapped mint is owned by the chosen token program, has the unwrapped mint's decimals and freeze authority, zero supply, and the program-derived mint authority; under Token-2022 it carries exactly confidential transfer (no authority, auto-approve, no auditor) and a metadata pointer to itself under that authority. The backpointer is owned by Token Wrap and holds the unwrapped mint's address; nothing else changes, and accounts that are not initialised mints of one of the two token programs are refused.",
 ["inputs","configurations"],"all decimals 0..255, all freeze and mint authority settings, supplies and extension sets of the unwrapped mint, both token programs on both sides, and all kinds of non-mint source accounts",
 "Tests create a handful of mints with the default decimals and check selected fields.",
 [PR,CU+"default_token_2022.rs"],[("copy of decimals and freeze authority",CU+"default_token_2022.rs"),("extension initialisation",CU+"default_token_2022.rs"),("initialize_mint2 with the PDA authority",PR)],
 ["wrapped mint account bytes","backpointer account bytes"])
prop("C09","Mint creation is all-or-nothing, funded, and idempotent on request",
 "Mint creation succeeds on a fresh pair exactly when both new accounts already hold at least their rent-exempt minimum, whatever extra lamports they hold; it takes lamports from nobody. If the pair exists, a plain request fails and an idempotent one succeeds leaving every account byte for byte as it was, including balances and metadata added since; no sequence of requests re-initialises a mint.",
 ["inputs","histories"],"all lamport levels around both thresholds, all prior states of the two accounts, both flags, all sequences of creation, wrap and creation again",
 "Tests try one under-funded level per account and one repeat; not the grid of levels, prior states and flags.",
 [PR],[("data_len idempotency check and owner check",PR+" process_create_mint"),("rent checks before allocation",PR+" process_create_mint")],
 ["result code and full account bytes of mint, backpointer and payer"])
prop("C10","A stuck escrow, and only a stuck, empty one, can be closed and remade",
 "Closing an escrow succeeds exactly when it is the pair's genuine Token-2022 escrow, empty, initialised, and its extensions differ from those a fresh escrow for the current mint would have; it then sends all of its lamports to the given destination (an account other than the escrow and the mints) and changes nothing else. A healthy escrow or one holding tokens can never be closed, and after a close the escrow can be created anew and wrapping works.",
 ["histories","configurations"],"all pairs of mint extension sets before and after closing and re-creating the mint at the same address, all balances, states, and both wrapped token programs",
 "Tests build two or three escrows by hand; the set of extension transitions through a real close and re-creation is not explored.",
 [PR],[("required-versus-present extension comparison",PR+" process_close_stuck_escrow"),("balance and state checks",PR+" process_close_stuck_escrow")],
 ["escrow account existence","destination lamports","result of wrap after re-creation"])
prop("C11","Syncing to Token-2022 makes the wrapped metadata equal the source",
 "After a successful sync to a Token-2022 wrapped mint, its name, symbol, URI and set of additional key-value pairs equal the source's exactly, whatever metadata it had before and however often it was synced, with stale keys gone; for a Metaplex source the pairs are exactly the documented rendering of its fields with creators unverified. Its metadata names the wrapped mint and the derived authority as update authority, and nothing else about the mint or any other account changes; with adequate lamports, a sync from a valid source that changes at most sixteen fields succeeds.",
 ["inputs","histories"],"all sequences of source metadata values over the enumerated field domains (empty, shorter, longer, keys added, removed, changed, reordered), from every source kind",
 "Tests sync once or twice with one set of values; transitions between arbitrary old and new metadata are not covered.",
 [PR,MD,MX],[("field diff and removal of stale keys",PR+" process_sync_metadata_to_token_2022"),("metaplex conversion",MX)],
 ["TokenMetadata extension of the wrapped mint","rest of the ledger"])
prop("C12","Syncing to SPL Token makes the Metaplex record equal the source",
 "After a successful sync to an SPL Token wrapped mint, its Metaplex metadata has the source's name, symbol, URI, seller fee, creators (all unverified), collection (unverified unless the collection's authority verified that very record) and uses, whatever it had before, with absent fields cleared; the update authority is the derived mint authority and the record is mutable. Rent for a new record is paid by the derived mint authority alone and nothing else changes; with adequate lamports, a sync from a valid source whose values Metaplex accepts succeeds.",
 ["inputs","histories"],"all sequences of source metadata values over the enumerated field domains, from every source kind, on absent and existing records",
 "Tests sync a few fixed records; create-then-update transitions over field combinations are not covered.",
 [PR,MX,MD],[("conversion to DataV2",MX+" token_2022_metadata_to_metaplex"),("create or update CPI",PR+" process_sync_metadata_to_spl_token")],
 ["Metaplex metadata account of the wrapped mint","rest of the ledger"])
prop("C13","Metadata is copied only from the source the unwrapped mint designates",
 "A metadata sync succeeds only with data from the source its unwrapped mint designates: for SPL Token, and for Token-2022 without a metadata pointer, the Metaplex account derived from that mint; with a pointer, exactly the account it names, read from the mint itself, from Metaplex, or from the program owning that account. An unset pointer, an account other than the designated one, a look-alike not owned by the right program, a wrong or silent owner program, or return data set by a different program is refused and changes nothing.",
 ["inputs","configurations"],"all combinations of pointer setting, supplied metadata account and supplied owner program over a universe of genuine and forged accounts, for both sync instructions",
 "Tests try each wrong account once for one configuration; combinations of pointer kind, account and program are not enumerated.",
 [MD,PR],[("pointer resolution and owner checks",MD),("return-data program id check",MD+" cpi_emit_and_decode")],
 ["resulting metadata or refusal"])
prop("C14","The canonical pointer is set only by the current mint authority",
 "Setting the canonical deployment pointer of a mint succeeds exactly when that mint's current mint authority signs, the mint is a genuine mint of one of the two token programs, the pointer account is that mint's derived one, and a first-time pointer holds its rent. It then stores exactly the given program id, so the last successful setter wins, and changes nothing else; after the authority is transferred the former one is refused, and once revoked nobody can set it.",
 ["histories","inputs"],"all sequences of pointer updates, authority transfers and revocations by all actors up to the depth bound, all lamport levels around the threshold, all signer sets and account substitutions",
 "Tests perform one create and one update; no history with authority changes is run.",
 [PR,LB],[("authority equality and signer check",PR+" process_set_canonical_pointer"),("PDA check",PR)],
 ["pointer account data","result code"])
prop("C15","Instruction encoding is a strict bijection and builders match the program",
 "Every instruction value encodes to bytes that decode to the same value, with the documented tag and little-endian layout, and every other byte string (unknown tag, missing or trailing bytes, invalid flag) is refused by the decoder and by the deployed program. The published instruction builders list exactly the documented accounts in the documented order with the documented writable and signer flags.",
 ["inputs"],"all byte strings up to 3 bytes, and all tags with every length up to 64 and boundary contents; all builder argument shapes up to 11 multisig signers",
 "Tests round-trip a few values and a few malformed strings.",
 [IX],[("pack and unpack",IX),("builders",IX)],
 ["decoder results","program results","account metas"])
prop("C16","Transfer hooks and multisigs compose with wrapping",
 "For a mint with a transfer hook, wrap and unwrap succeed when the hook's required extra accounts are supplied after the multisig signers, the hook runs exactly once per transfer with the right source, mint, destination, authority and amount, and a rejection by the hook or a missing extra account undoes the whole operation. This holds for every number of extra accounts and of multisig signers within the limits, and for single and multisig authorities alike.",
 ["inputs","configurations"],"all numbers of extra hook accounts and multisig members up to the bound, account orders, hook verdicts, in both directions",
 "One test per direction with one extra account; signers and hook accounts together, or a rejecting hook, are not tested.",
 [PR],[("trailing accounts forwarded to the transfer",PR+" process_wrap, process_unwrap"),("multisig signers separated from extra accounts for the burn",PR+" process_unwrap")],
 ["hook invocation record","balances"])
prop("C17","Every shipped mint customizer creates exactly the mint it describes",
 "For each shipped customizer (default, no extensions, compliance), creating a Token-2022 wrapped mint succeeds for every valid unwrapped mint, the account has exactly the space the customizer declares, carries exactly the documented extensions with the documented authorities and settings, and has the documented freeze authority and the unwrapped mint's decimals. Under SPL Token as the wrapped program the same authorities and decimals apply and no extension is attempted.",
 ["configurations","inputs"],"all customizers x wrapped programs x unwrapped mint decimals, freeze authorities and extension sets",
 "Only one creation per customizer is tested.",
 [CU+"default_token_2022.rs",CU+"no_extensions.rs",CU+"compliance.rs",CU+"interface.rs"],[("space and extension list kept in step",CU)],
 ["wrapped mint account bytes for a program built with each customizer"])
prop("C18","The CLI submits exactly the transaction the user asked for",
 "For every command and option combination, the transaction the CLI submits contains only the requested Token Wrap instruction (plus the funding it reports), for the mints, accounts, amounts and token programs the user named or, where omitted, those the chain reports, with the documented defaults and every account derived as the program expects; it is paid and signed by the named parties, so the program accepts it whenever the request is valid. Options that contradict the chain are refused before anything is submitted when unwrapping, and so are accounts of the wrong kind wherever the command has to look them up; any other invalid request fails and changes nothing. The addresses, amounts and signatures reported are those of the transaction.",
 ["inputs","configurations"],"all commands x option presence x token programs x chain states of the referenced accounts, against a controlled RPC node",
 "CLI tests run a dozen fixed invocations against a validator.",
 [CL+"wrap.rs",CL+"unwrap.rs",CL+"close_stuck_escrow.rs",CL+"create_escrow_account.rs",CL+"find_pdas.rs",CL+"common.rs"],[("address resolution and derivation",CL+"wrap.rs, unwrap.rs"),("program id cross-checks",CL+"unwrap.rs")],
 ["captured transactions","stdout JSON","exit code"])
prop("C19","The CLI's account creation tops up exactly what is missing",
 "Creating a wrapped mint through the CLI transfers to the wrapped mint and the backpointer exactly the lamports by which each falls short of its rent-exempt minimum, none when it is already funded, and the resulting transaction succeeds on chain from every prior lamport level. Creating the escrow account through the CLI creates it unless a token account already exists there, in which case it is refused, or skipped when idempotent; lamports sent to the address beforehand do not count as existence.",
 ["inputs","configurations"],"all prior lamport levels around the thresholds of both accounts, all prior states of the escrow address, both token programs, idempotent or not",
 "CLI tests create from nothing and from one pre-funded level.",
 [CL+"create_mint.rs",CL+"create_escrow_account.rs"],[("saturating top-up",CL+"create_mint.rs"),("existence check",CL+"create_escrow_account.rs")],
 ["captured transfers","execution of the captured transaction","reported funded lamports"])
prop("C20","Dry-run and sign-only never submit, and failures are never called success",
 "With dry-run the CLI only simulates and with sign-only it only signs: neither ever submits a transaction, for any command that offers them. A simulation or submission that fails is reported as a failure with a non-zero exit code, never as success.",
 ["inputs","fault_sequences"],"all commands x output formats x dry-run or sign-only x every RPC fault and simulation outcome at every request of the run",
 "CLI tests look at one successful dry run; faults and failing simulations are never injected.",
 [CL+"common.rs",CL+"wrap.rs",CL+"unwrap.rs"],[("process_transaction",CL+"common.rs")],
 ["RPC methods called","exit code and output"])
prop("C21","Offline multisig signing assembles the same transaction for every party",
 "Signatures produced by separate sign-only runs of wrap or unwrap, one per multisig member, fee payer included, combine in a final run into a fully signed transaction that the program accepts, for every threshold, choice and order of members. Every run signs the same message, and when a run lacks a required signature it fails and nothing is executed.",
 ["inputs","schedules"],"all multisig shapes and member subsets up to the bound, all divisions of the signing among runs, both directions",
 "One test walks one 2-of-3 flow.",
 [CL+"wrap.rs",CL+"unwrap.rs",CL+"common.rs"],[("presigner and null-signer handling",CL+"wrap.rs, unwrap.rs"),("PUBKEY=SIGNATURE parsing",CL+"common.rs")],
 ["sign-only JSON","captured final transaction and its signatures"])
prop("C22","The CLI resolves the metadata source the program will accept",
 "For a sync to a Token-2022 wrapped mint without an explicit source, the CLI passes the account the unwrapped mint designates: none when the pointer names the mint itself, the pointed-to account when it names another, and the mint's Metaplex account when there is no pointer, it is unset, or the mint is an SPL Token mint. Whenever a valid source exists that needs no owner program, the resulting transaction succeeds on chain. Explicit options of either sync command are passed through unchanged and in the right order, and the sync to an SPL Token wrapped mint fills in nothing that was not given.",
 ["inputs","configurations"],"all token programs x pointer settings x explicit option combinations x both sync commands",
 "CLI tests cover four fixed situations.",
 [CL+"sync_metadata_to_token2022.rs",CL+"sync_metadata_to_spl_token.rs"],[("resolve_source_metadata_account",CL+"sync_metadata_to_token2022.rs")],
 ["captured transaction accounts","execution of the captured transaction"])

JS="clients/js/src/"
prop("C23","The JavaScript client builds what the program accepts",
 "For every request, the JavaScript client's helpers return exactly the requested Token Wrap instructions (plus the funding they report), for the mints, accounts, amounts and token programs named or, where omitted, the documented defaults or what the chain reports, with every account derived as the program expects and every top-up exactly what is missing; so the program accepts them whenever the request is valid. An escrow counts as existing only if a token account is there, and a lookup that fails makes the call fail. The generated builders, parsers, decoders, address functions and error codes agree with the program: what a builder makes the program reads as the same request, what the parser reads is what the instruction says, and what is too short or of another kind is not parsed.",
 ["inputs","configurations","fault_sequences"],"all helpers x option presence x token programs x chain states and lamport levels x every RPC fault; generated builders over all instructions and boundary values",
 "The client's tests run a few fixed requests against a validator and none runs without one.",
 [JS+"create-mint.ts",JS+"wrap.ts",JS+"unwrap.ts",JS+"utilities.ts",JS+"generated/"],[("top-up and idempotence",JS+"create-mint.ts"),("defaults and lookups",JS+"utilities.ts"),("account lists and codecs",JS+"generated/")],
 ["returned instructions and fields","execution of the returned instructions","rejections"])
prop("C24","JavaScript offline multisig signing assembles one accepted transaction",
 "In the JavaScript client's offline multisig flow every party makes the same message for wrap and for unwrap, whichever of the keys it holds, and the transaction combined from their signatures is one the program accepts, for every threshold, choice and order of members, fee payer included. Combining is refused when a required signature is missing or the parts are not all of the same message.",
 ["inputs","schedules"],"all multisig shapes and member subsets up to the bound, all divisions of the signing among parties, both directions, all missing and foreign parts",
 "The client's tests walk one 2-of-3 flow, and only against a validator.",
 [JS+"wrap.ts",JS+"unwrap.ts",JS+"utilities.ts"],[("combinedMultisigTx",JS+"utilities.ts"),("multisigOfflineSign",JS+"wrap.ts, unwrap.ts")],
 ["compiled message bytes","verified signatures","execution of the combined transaction"])

out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
