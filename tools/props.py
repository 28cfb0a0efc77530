#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
P = "solana-program/src/"
I = P + "instructions/"
def m(*xs): return [{"name": n, "where": w} for n, w in xs]
STATE = [
 {"name": "escrowed ORCA", "meaning": "the part of the vault that is owed to outstanding claims", "where": P + "state/state.rs"},
 {"name": "pending claim account", "meaning": "one per (staker, index): owner of the claim, amount, release time", "where": P + "state/pending_withdraw.rs"},
 {"name": "vault token account", "meaning": "holds all ORCA of the pool, escrowed or not", "where": P + "pda.rs"},
]
ps = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": mech}
    if state: a["state"] = state
    a["observe_at"] = observe or ["accounts of the ledger after each transaction", "result of each transaction"]
    a["hook_needed"] = None
    ps.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

H = "every history of stakes, unstakes, withdrawals, configuration changes, direct token transfers and burns by any users, at any clock times, singly or several in one transaction"
prop("C01", "Escrow equals what is owed, and the vault always covers it",
 "After every transaction, the recorded escrow equals the sum of the amounts of all outstanding withdrawal claims, and the vault holds at least that much ORCA. No sequence of operations can leave a claim without the ORCA that backs it.",
 ["histories", "inputs"], H,
 "It is an invariant over histories with several users, indices and donations; the existing tests run single staking flows on a handful of amounts and never check the sum over all claims.",
 [I+"unstake.rs", I+"withdraw.rs", I+"stake.rs", P+"state/state.rs"],
 m(("escrow increased by the claimed amount", I+"unstake.rs: process_instruction"), ("escrow decreased by the paid amount", I+"withdraw.rs: process_instruction"), ("vault minus escrow is checked", I+"stake.rs, unstake.rs: checked_sub")), STATE)
prop("C02", "Every operation moves exactly the tokens it says, and no others",
 "A stake moves exactly the stated ORCA from the staker to the vault and mints xORCA only to the staker; an unstake burns exactly the stated xORCA of the unstaker and moves no ORCA; a withdrawal moves exactly the claim's amount from the vault to the claim's owner. Apart from that no operation changes any token balance or supply, and a refused operation changes nothing.",
 ["histories", "inputs"], H + "; amounts from 0 to 2^62, in pools of one user to 2^64-101",
 "Tests compare the balances of the accounts they expect to change; they do not show that nothing else changes, nor cover the range of amounts and pool shapes.",
 [I+"stake.rs", I+"unstake.rs", I+"withdraw.rs", P+"assertions/account.rs"],
 m(("transfer and mint", I+"stake.rs"), ("burn", I+"unstake.rs"), ("payout", I+"withdraw.rs")), STATE)
prop("C03", "xORCA never loses value, and nobody can extract other users' ORCA",
 "While any xORCA is outstanding, no operation lowers the ORCA value at which xORCA can be redeemed, and outstanding xORCA stays backed by at least as much ORCA that is not escrowed. No sequence of stakes and unstakes by one actor, however interleaved with other users' operations, gains him ORCA beyond what others gave away.",
 ["histories", "inputs"], H + "; one actor playing alone against a pool of any shape",
 "Value extraction by rounding needs particular pool shapes and sequences of amounts; the tests check a few exchange rates and no sequence for profit.",
 [P+"util/math.rs", I+"stake.rs", I+"unstake.rs"],
 m(("rounding down in favour of the pool", P+"util/math.rs"), ("virtual offsets", P+"util/math.rs"), ("zero output refused", I+"stake.rs, unstake.rs")), STATE)
prop("C04", "A claim is payable exactly from the end of the cooldown it was made under",
 "A claim can be withdrawn at no moment before its creation time plus the cooldown in force at its creation, and at every moment from then on. Changing the cooldown later neither delays nor speeds up existing claims, and a cooldown that would overflow the clock is refused rather than wrapped.",
 ["histories", "inputs", "schedules"], "every order of unstakes, cooldown changes, withdrawals and clock advances; clocks and cooldowns over the whole 64-bit range",
 "The tests use one or two cooldowns and clock values; off-by-one moments, later changes and the ends of the range are a product space they do not sample.",
 [I+"unstake.rs", I+"withdraw.rs", I+"set.rs", P+"cpi/system"],
 m(("release time computed at creation with overflow check", I+"unstake.rs"), ("release time compared with the clock", I+"withdraw.rs"), ("negative cooldowns refused", I+"set.rs, initialize.rs")), STATE)
prop("C05", "Each claim belongs to one user and index, and is paid exactly once",
 "Only the user who made a claim can withdraw it, he can do so once, and a claim is never changed, overwritten or consumed by any other operation of anyone. Claims under different indices or users never interfere, and an index can be used again as soon as its claim was paid, also within the same transaction.",
 ["histories", "inputs"], "every history over several users and all 256 indices, including withdrawals aimed at other users' claims and lamports sent to claim addresses",
 "Tests make one or two claims; overwriting, replay, reuse and cross-user interference depend on the order of several operations over many indices.",
 [I+"unstake.rs", I+"withdraw.rs", P+"util/account.rs", P+"state/pending_withdraw.rs"],
 m(("claim address derived from owner and index", P+"state/pending_withdraw.rs"), ("claim account must be unused", I+"unstake.rs: owner assertion"), ("claim account closed on payment", P+"util/account.rs: close_program_account")), STATE)
prop("C06", "Only the current update authority changes the configuration",
 "The cooldown and the update authority change only by an instruction signed by the current update authority, only the targeted setting changes, and it changes to exactly the requested value; a negative cooldown is refused. After a handover only the new authority has that power.",
 ["histories", "inputs"], "every sequence of configuration attempts by every user (authority, former authorities, strangers) between staking operations, with cooldowns over the whole range",
 "Tests try single rejections and changes; who holds the power after chains of handovers, and what else changes, is a question over histories.",
 [I+"set.rs", P+"state/state.rs"],
 m(("signer and authority comparison", I+"set.rs"), ("field update", I+"set.rs")), STATE[:1])
prop("C07", "Wrong or forged accounts and missing signatures are always refused",
 "An instruction takes effect only with the pool's own accounts, the two real mints, the user's own token accounts and claims, the real system and token programs, and the required signatures. Replacing any of them, even by look-alike accounts with forged contents, or withholding a signature or write permission, makes the whole transaction fail without effect or leaves its effect exactly the legitimate one.",
 ["inputs", "configurations"], "every instruction with every one and every pair of its accounts replaced by any account of a cast of forgeries, and with every combination of withheld signatures and write permissions",
 "Tests replace some accounts one at a time with one wrong value; the space of positions, pairs and forgeries is combinatorial.",
 [I+"stake.rs", I+"unstake.rs", I+"withdraw.rs", I+"set.rs", P+"assertions/account.rs", P+"pda.rs", P+"state"],
 m(("address, owner, role and seed assertions", P+"assertions/account.rs"), ("stored bumps", P+"state/state.rs: verify_address_with_bump"), ("token account assertions", P+"assertions/account.rs: make_owner_token_account_assertions")), STATE)
prop("C08", "Initialization happens once, only by the deployer, and cannot be blocked",
 "The pool can be created only by a transaction signed by the designated deployer and by the future update authority, with genuine mints and a non-negative cooldown, and it starts with exactly the requested settings and nothing escrowed. It can never be initialized again, and nobody can prevent it by sending lamports to the pool's addresses or creating the pool's token account beforehand.",
 ["histories", "inputs", "configurations"], "every order of interference and initialization attempts by anyone from an untouched ledger, every kind of mint and account contents, the whole range of cooldowns",
 "Tests initialize from a clean ledger and with single wrong parameters; prior interference and repeated attempts are histories.",
 [I+"initialize.rs", P+"util/account.rs", P+"state/state.rs"],
 m(("deployer and signature checks", I+"initialize.rs"), ("creation that tolerates existing lamports", P+"util/account.rs: create_account_secure"), ("idempotent vault creation", I+"initialize.rs")), STATE)
prop("C09", "Malformed input is refused cleanly",
 "Any instruction data and any list of accounts, however truncated, extended, duplicated, reordered or filled with arbitrary contents, is either processed as a well-formed instruction or refused with an error and no effect. It never makes the program crash, abort or touch memory outside the accounts.",
 ["inputs"], "instruction data of every length and every value of every discriminating byte, every number of accounts, duplicated accounts, account contents of every length around the expected one with boundary contents",
 "Tests send well-formed instructions; the claim is about all the others.",
 [P+"entrypoint.rs", P+"instructions/mod.rs", P+"assertions/account.rs", P+"state/mod.rs", P+"cpi/token"],
 m(("instruction decoding", P+"instructions/mod.rs"), ("account count checks", P+"util/account.rs: get_account_info"), ("length and discriminator checks", P+"assertions/account.rs")))
prop("C10", "Every accepted operation reports exactly one event with the true values",
 "Each accepted stake, unstake, withdrawal and authority change logs exactly one event of its kind, whose every field equals what actually happened: the amounts moved, and the vault balance, escrow and xORCA supply after the operation. Following the events alone therefore reproduces the state of the pool.",
 ["histories", "inputs"], H,
 "Tests do not compare every event field with the ledger, and not after histories in which balances before and after differ in every field.",
 [P+"event.rs", I+"stake.rs", I+"unstake.rs", I+"withdraw.rs", I+"set.rs"],
 m(("event construction", I+"*.rs: Event"), ("encoding", P+"event.rs")), STATE, ["program data logs of each transaction", "accounts of the ledger"])
prop("C11", "Off-chain quotes equal what the program will pay",
 "For every pool and amount, the Rust and JavaScript conversion helpers return exactly the amount the program mints or pays for that amount. Where the program refuses for lack of output or overflow, the helpers never promise an obtainable positive amount.",
 ["inputs", "histories"], "every pool shape and amount of the explored spaces, quoted just before the operation is executed on the real program",
 "The helpers' tests compare two or three values with constants and never run the program beside them.",
 ["rust-client/src/conversion.rs", "js-client/src/utils/conversion.ts", P+"util/math.rs"],
 m(("Rust quote", "rust-client/src/conversion.rs"), ("JavaScript quote", "js-client/src/utils/conversion.ts"), ("on-chain conversion", P+"util/math.rs")), None, ["return values of the helpers", "token balances of the ledger"])
prop("C12", "What the Rust client builds and decodes is what the program means",
 "Instructions built by the Rust client for any arguments are understood by the program exactly as stated, with the accounts, signers and write permissions it needs and no more; addresses it derives are the program's. Accounts and events it decodes yield the values the program wrote, and error codes carry the meaning of the actual refusal.",
 ["inputs", "histories"], "every operation of explored histories, built by the client and executed by the real program, and every account and event of every reached state decoded by the client",
 "Client and program are tested separately against constants; agreement over all arguments and states is not tested.",
 ["rust-client/src/generated", "rust-client/src/pda/mod.rs", P+"instructions/mod.rs", P+"event.rs", P+"error.rs", P+"state"],
 m(("instruction builders", "rust-client/src/generated/instructions"), ("account decoding", "rust-client/src/generated/accounts"), ("address derivation", "rust-client/src/pda/mod.rs")), None, ["transactions built by the client", "decoded accounts and events"])
prop("C13", "Rust fetch helpers return the ledger's truth or an error",
 "Each fetch helper of the Rust client returns what the ledger held at one moment while it ran: all of a staker's claims below the index limit and no others, the pool's settings, its vault, supply and exchange rate. (A claim search over more than 100 indices returns every claim that existed throughout and none that never did.) Nobody else can make it fail or lie by sending lamports anywhere, and when a response of the node is missing, failing, cut short or undecodable it reports an error.",
 ["histories", "schedules", "fault_sequences"], "every reachable pool state, every interleaving of the helper's requests with operations on the pool, every fault of every response, every search limit",
 "The tests answer from one fixed set of accounts that never changes between requests.",
 ["rust-client/src/utils/mod.rs", "rust-client/src/generated/accounts"],
 m(("claim search", "rust-client/src/utils/mod.rs: fetch_pending_withdraws_for_staker"), ("exchange rate", "rust-client/src/utils/mod.rs: fetch_staking_exchange_rate")), None, ["return values", "requests to the node"])
prop("C14", "Valid operations always go through, so everyone can always exit",
 "From every reachable state, an operation that meets its stated conditions is accepted; in particular every xORCA holder can unstake everything at once and, after the cooldown, every claim can be withdrawn in any order by its owner. No operation by anyone else can block that.",
 ["histories", "inputs"], H + "; from every state reached, all exits in several orders; amounts up to 2^62, in pools of one user to 2^64-101",
 "A test that ends in success shows one path; the claim is about every reachable state, including ones prepared by an adversary.",
 [I+"stake.rs", I+"unstake.rs", I+"withdraw.rs", P+"util/account.rs", P+"util/math.rs"],
 m(("creation that tolerates existing lamports", P+"util/account.rs: create_account_secure"), ("128-bit intermediate products", P+"util/math.rs")), STATE)
prop("C15", "Rent deposits of claims are taken once and returned in full",
 "Making a claim costs its owner exactly the missing part of the claim account's rent deposit and leaves it rent exempt; withdrawing returns to him all lamports the claim account holds. No other account of lamports changes, and lamports are never created or lost.",
 ["histories", "inputs"], H + "; any number of lamports sent to claim addresses before or while they are in use",
 "Tests do not track lamports through claim life cycles with prior and intermediate funding.",
 [P+"util/account.rs", I+"unstake.rs", I+"withdraw.rs"],
 m(("deposit", P+"util/account.rs: create_account_secure"), ("refund", P+"util/account.rs: close_program_account")), STATE)
prop("C16", "The exchange is exact, rounds for the pool, and never gives nothing",
 "A stake mints floor(amount x (supply+100) / (free ORCA+100)) xORCA, or one for one when the pool has no xORCA or no free ORCA, and an unstake claims floor(amount x (free ORCA+100) / (supply+100)) ORCA, computed without overflow or truncation. An operation that would yield nothing, or a result that does not fit, is refused.",
 ["inputs", "histories"], "every pool shape and amount of the explored spaces, from 1 to 2^62 (pools of one user: to 2^64-101), and every small pool and amount exhaustively",
 "The tests check a handful of products; truncation and rounding errors depend on particular triples of numbers.",
 [P+"util/math.rs", I+"stake.rs", I+"unstake.rs"],
 m(("conversions", P+"util/math.rs"), ("free ORCA = vault minus escrow", I+"stake.rs, unstake.rs")), STATE)
prop("C17", "Inflating the share price does not pay",
 "Whoever stakes first and donates to the vault before another user's deposit never ends up with more than he put in, whatever the three amounts. The depositor never loses more than the price of one unit of xORCA plus one.",
 ["inputs", "histories"], "every triple of first stake, donation and deposit of the enumerated grids (all small values, and boundary values up to 2^60), including donations split around the stake and unstaking parts",
 "The tests contain no attack sequences; profit depends on the exact triple of amounts.",
 [P+"util/math.rs", I+"stake.rs", I+"unstake.rs"],
 m(("virtual offsets", P+"util/math.rs"), ("zero output refused", I+"stake.rs")), STATE)
prop("C18", "What the JavaScript client builds and decodes is what the program means",
 "Instructions built by the JavaScript client for any arguments are understood by the program exactly as stated, with the accounts, signers and write permissions it needs; addresses it derives are the program's. Accounts and events it decodes yield the values the program wrote, and the names it gives to the program's error codes are those of what went wrong.",
 ["inputs", "histories"], "every operation kind with boundary arguments, built by the JavaScript code and executed by the real program; every account and event kind with boundary contents written by the program and decoded by the JavaScript code",
 "The JavaScript tests check exports and constants; none runs the program on what the client builds.",
 ["js-client/src/generated", "js-client/src/utils/index.ts", P+"instructions/mod.rs"],
 m(("instruction builders", "js-client/src/generated/instructions"), ("account decoders", "js-client/src/generated/accounts"), ("address derivation", "js-client/src/utils/index.ts")), None, ["instruction bytes and accounts built", "decoded values"])
prop("C19", "JavaScript fetch helpers return the ledger's truth or an error",
 "Each fetch helper of the JavaScript client returns what the ledger held at one moment while it ran: all of a staker's claims below the index limit and no others, the pool's settings, its vault, supply and exchange rate. (A claim search over more than 100 indices returns every claim that existed throughout and none that never did.) Nobody else can make it fail or lie by sending lamports anywhere; when a response of the node is missing or failing it reports an error, and it refuses a limit that is not a whole number from 0 to 255.",
 ["histories", "schedules", "fault_sequences"], "every reachable pool state of a bounded set, every interleaving of the helper's requests with operations on the pool, every fault of every response, every search limit",
 "There are no tests of the fetch helpers beyond their existence.",
 ["js-client/src/utils/index.ts", "js-client/src/generated/accounts"],
 m(("claim search", "js-client/src/utils/index.ts: fetchPendingWithdrawsForStaker"), ("exchange rate", "js-client/src/utils/index.ts: fetchStakingExchangeRate")), None, ["return values", "requests to the node"])
prop("C20", "Operator scripts do exactly what they were asked to, or nothing",
 "Whatever its arguments, keys and the ledger, an operator script either changes the ledger by exactly the operation asked for (plus opening the caller's own token account where that is missing), or changes nothing; an operation the program would carry out for the caller is carried out, even if somebody acts on the pool, sends lamports anywhere or opens the account first, as long as that leaves it possible throughout. It reports success only if the operation took place, and the amounts, balances, addresses, indices and times it reports are the ledger's. When a request to the node fails or goes unanswered it reports failure or, where nothing depends on the answer, carries on correctly.",
 ["inputs", "histories", "schedules", "fault_sequences"], "every reachable pool state to a depth, every script with boundary and malformed arguments, an act of somebody else before each request to the node, every single failing request",
 "The scripts have no tests.",
 ["ts-scripts/initialize.ts", "ts-scripts/stake.ts", "ts-scripts/unstake.ts", "ts-scripts/withdraw.ts", "ts-scripts/set.ts", "ts-scripts/transfer-orca-to-vault.ts"],
 m(("stake", "ts-scripts/stake.ts"), ("unstake", "ts-scripts/unstake.ts"), ("withdraw", "ts-scripts/withdraw.ts"), ("settings", "ts-scripts/set.ts"), ("donation to the vault", "ts-scripts/transfer-orca-to-vault.ts"), ("initialization", "ts-scripts/initialize.ts")), None, ["exit status and printed report", "transactions sent", "ledger"])
prop("C21", "Scripts that show the pool and claims show what the ledger holds",
 "The status script shows the pool's settings, balances, supply and the exchange rates in both directions that the program would apply, and the claims script lists each of a staker's pending withdrawals among the indices it searches, and no others, with its address, amount, times and whether it can be withdrawn now. Neither changes anything. When a request fails they report an error and never a partial truth, and nobody else's lamports make them fail or lie.",
 ["histories", "fault_sequences"], "every reachable pool state to a depth, every single failing request, every moment relative to the cooldown's end",
 "The scripts have no tests.",
 ["ts-scripts/status.ts", "ts-scripts/pending-withdraws.ts"],
 m(("pool status", "ts-scripts/status.ts"), ("claims of a staker", "ts-scripts/pending-withdraws.ts")), None, ["exit status and printed report", "requests to the node"])
prop("C22", "Saving an operator's key is all or nothing",
 "Whatever its arguments, and wherever its process ends or the disk refuses, generate-keypair either saves exactly the key it was given under the name it prints and in the form the other scripts load, or saves nothing under that name. It exits with success only if the key is saved, refuses what is not the hex form of a key without saving anything, and a key saved before stays whole until the new one has replaced it; no other key is touched.",
 ["crash_points", "fault_sequences"], "every step at which the process can end or the disk can refuse, every prefix of a write, every argument of an alphabet",
 "The scripts have no tests.",
 ["ts-scripts/generate-keypair.ts"],
 m(("generating and saving keys", "ts-scripts/generate-keypair.ts")), None, ["exit status and printed report", "files in the keys directory"])
prop("C23", "What the Rust client serializes comes back unchanged",
 "With its serialization feature on, every account, event, instruction argument and enum of the Rust client can be put into JSON and read back in every way to the very same value. The text names public keys in base58 and states every number exactly, as the program wrote it. Text that is cut short, lacks a part or has one out of range or of another type is refused, and never taken for some other value.",
 ["inputs", "histories"], "every account, event and instruction of all explored histories, boundary values of all types, every damage to every part",
 "No test enables the feature.",
 ["rust-client/src/generated/accounts/state.rs", "rust-client/src/generated/accounts/pending_withdraw.rs", "rust-client/src/generated/types/event.rs", "rust-client/src/generated/types/token_account.rs", "rust-client/src/generated/types/token_mint.rs", "rust-client/src/generated/types/state_update_instruction.rs", "rust-client/src/generated/instructions/stake.rs"],
 m(("accounts and their text form", "rust-client/src/generated/accounts/state.rs"), ("events and their text form", "rust-client/src/generated/types/event.rs")), None, ["JSON text", "values read back"])
prop("C24", "An image is uploaded as it is, or the script fails",
 "Whatever its arguments and files and whatever the storage service answers, upload-image uploads at most once: exactly the bytes of the file it was given, to the network it was told (mainnet unless told), paid for with exactly the key in the key file, and marked with the content type of the file name's extension (octet-stream for others). It reports success, with the name, link and size of what was stored, and exits with success, only if the service stored it. A key file that is not 64 bytes, an unknown network or a file that cannot be read uploads nothing.",
 ["inputs", "fault_sequences"], "every argument and key file of an alphabet, every answer of the service, every look at the disk failing or finding the file gone",
 "The scripts have no tests.",
 ["ts-scripts/upload-image.ts"],
 m(("uploading", "ts-scripts/upload-image.ts")), None, ["exit status and printed report", "what the storage service is given"])
for p in ps:
    assert len(p["title"]) <= 80, p["id"]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
open(out, "w").write("".join(json.dumps(p) + "\n" for p in ps))
print(len(ps))
