#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H, I, C, F = "histories", "inputs", "configurations", "fault_sequences"
T_SEQ = "The on-chain integration tests need an SVM that is not available offline and replay single hand-written flows; the unit tests that run here cover fixed byte layouts only."
P = []
def p(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
                  technique=technique, note=note))
A = "program/src/actions/"
ST = "state/src/"

p("P01", "Only a role's own credential, or its live session key, can act for it",
  "An instruction that acts for a role succeeds only when it is authorised by that role's registered credential or, for a session credential, by the session key currently open and unexpired for it. Any other signer, key, signature, signature over other content, missing precompile or preceding instruction, or another role's credential is refused, and a refused instruction leaves every account unchanged. A credential that is presented correctly is accepted by every instruction for every credential kind.",
  [I, C, H], "all 8 credential kinds x all instruction kinds x all (role, presented credential) pairs x an exhaustive list of structural corruptions of the authorisation (each byte of the payload and signature, indexes, lengths, signer flags)",
  "Tests try one right and one wrong signer for some instruction/credential pairs; the space is the product of instructions, credential kinds and forgeries.",
  [ST + "authority/mod.rs", ST + "authority/ed25519.rs", ST + "authority/secp256k1.rs", ST + "authority/secp256r1.rs", ST + "authority/programexec/mod.rs", ST + "authority/programexec/session.rs"],
  [("per-kind authenticate / authenticate_session", ST + "authority/*.rs"), ("role lookup and session dispatch in every handler", A + "*.rs")],
  "exhaustive enumeration of authorisation cases, executed against the real program and compared with a reference model",
  "Real program code in an emulated runtime; the secp256r1 precompile is modelled by a keyed hash instead of P-256, everything else (secp256k1 recovery, hashing, address derivation) is real.")

p("P02", "Counter-signed approvals are used once and only while fresh",
  "Every accepted operation authorised by a counter-carrying signature must present exactly the successor of the counter stored for that role and advances it by one, and a refused one leaves it unchanged; the same signed message is therefore accepted at most once. A signature is accepted only when its slot is not in the future and at most 60 slots old. No sequence of other operations on the wallet makes an already accepted message acceptable again while it is still fresh.",
  [H, I], "all histories up to the depth bound over fresh, replayed, stale, future-dated, skipped-counter and reordered messages for several roles, interleaved with management operations; all counter and slot boundary values",
  "A replay needs at least two operations and a particular order; tests replay one signature directly after its use.",
  [ST + "authority/secp256k1.rs", ST + "authority/secp256r1.rs", A + "replace_authority_v1.rs"],
  [("signature odometer", ST + "authority/secp256k1.rs secp256k1_authority_authenticate"), ("signature odometer", ST + "authority/secp256r1.rs secp256r1_authority_authenticate"), ("60-slot window", "MAX_SIGNATURE_AGE_IN_SLOTS")],
  "breadth-first search over operation histories of the real program with a replay monitor, plus exhaustive counter/slot boundaries",
  "Depth-bounded; two known ways to make a message reusable are listed in KNOWN_FINDINGS.txt.")

p("P03", "A counter signature binds the whole instruction and every account",
  "A counter-signed authorisation is valid only for exactly the operation contents, account addresses in order, their signer and writable flags, slot and counter that were signed. Changing any byte of the operation's arguments or payload, or replacing, reordering, adding, removing or re-flagging any account, without re-signing makes it refused. The message prefix used by wallet software changes nothing about this binding.",
  [I], "for every instruction kind and both curve families: every single-byte change of the covered content and every single-account mutation (replace, swap, drop, append, flag flip)",
  "Tests modify one field of one instruction; the claim is about all bytes and all account positions.",
  [ST + "authority/secp256k1.rs", ST + "authority/secp256r1.rs", "program/src/instruction.rs"],
  [("message hash over payload, accounts, slot, counter", ST + "authority/secp256k1.rs"), ("AccountsPayload", ST + "authority/secp256k1.rs")],
  "exhaustive single-point mutation of signed transactions executed on the real program",
  "Every byte position with at least two different flips; multi-byte collisions are left to the hash functions.")

p("P04", "Passkey approvals are bound to the operation by their challenge",
  "A passkey (WebAuthn) approval is accepted only when the signed client data is a WebAuthn assertion whose challenge is the hash of exactly this operation and the signature verified by the precompile covers that client data for the role's registered key. Truncated, oversized or malformed encodings never authorise an operation the key holder did not approve, and are refused without crashing. Both supported client-data encodings of a genuine approval are accepted.",
  [I], "both client-data encodings, every single-byte change and every truncation of genuine approvals, all field orders, and an alphabet of malformed encodings",
  "Tests hold a handful of recorded assertions; parsers must be right on every byte string.",
  [ST + "authority/secp256r1.rs"],
  [("client data reconstruction / JSON check", ST + "authority/secp256r1.rs webauthn"), ("precompile introspection", ST + "authority/secp256r1.rs verify_secp256r1_instruction_data")],
  "exhaustive mutation and grammar enumeration of approvals on the real program",
  "The P-256 verification itself is the runtime's precompile and is modelled by a keyed hash.")

p("P05", "Sessions open only by the main credential, within their limit, and end on time",
  "A session is opened only by the role's main credential, only for credentials that support sessions, and never for longer than that credential's maximum; it replaces the previous one. The session key acts for its role up to and including its last slot and never afterwards, for no other role, and cannot itself open or extend a session. Opening one changes nothing else in the wallet.",
  [H, I, C], "all 4 session credential kinds, all histories up to the depth bound of opening, using and outliving sessions with two session keys and two roles, all duration and slot boundary values",
  "Expiry and replacement are history properties with off-by-one boundaries in slots that single flows do not visit.",
  [A + "create_session_v1.rs", ST + "authority/ed25519.rs", ST + "authority/secp256k1.rs", ST + "authority/secp256r1.rs", ST + "authority/programexec/session.rs"],
  [("start_session / authenticate_session", ST + "authority/*.rs"), ("session creation handler", A + "create_session_v1.rs")],
  "breadth-first search over session histories on the real program against a reference model",
  "Bounded depth and slot alphabet; boundary values of durations and expirations are enumerated separately.")

p("P06", "SOL spending never exceeds the acting role's SOL limits",
  "For every sequence of operations by a limited role, the SOL leaving the wallet in each instruction is charged exactly once to the role's total limit, or to its recurring limit where it has no total one, and to its limits for the destinations paid where it has any of those, and is refused when one of these does not cover it or no SOL permission exists. Recurring limits refill only when their window has passed; refunds within a transaction do not reduce what is charged; other roles' limits are never touched. A spend within the limits is accepted, a refused one changes nothing, and the wallet never drops below its rent floor.",
  [H, I, C], "all combinations and orders of the SOL permissions, all histories up to the depth bound, all boundary values of amounts, allowances, windows and slots, and every permission kind beside every limit",
  T_SEQ, [A + "sign_v2.rs", ST + "action/sol_limit.rs", ST + "action/sol_recurring_limit.rs", ST + "action/sol_destination_limit.rs", ST + "action/sol_recurring_destination_limit.rs"],
  [("spend accounting and enforcement", A + "sign_v2.rs"), ("limit records' run()", ST + "action/sol_*.rs")],
  "breadth-first search over spending histories on the real program against a reference accounting model, plus exhaustive boundaries",
  "Amount alphabet is small but chosen around each limit; the runtime is emulated.")

p("P07", "Token spending never exceeds the acting role's token limits",
  "For every sequence of operations by a limited role, each decrease of a wallet-controlled token balance is charged exactly once to that role's total limit for that mint, or to its recurring limit where it has no total one, and to its limits for the destinations where it has any for that mint, and is refused when one of these does not cover it or none exists. Transfers, checked transfers, burns, delegated moves, moves made by other programs and what leaves an account before or when it is closed all count, as do several accounts of one mint, and incoming tokens never offset outgoing ones. A spend within the limits is accepted and no other role's or mint's limit changes.",
  [H, I, C], "all combinations of token permissions for two mints under both token programs, all histories up to the depth bound, all boundary values of amounts, allowances, windows and slots",
  T_SEQ, [A + "sign_v2.rs", ST + "action/token_limit.rs", ST + "action/token_recurring_limit.rs", ST + "action/token_destination_limit.rs", ST + "action/token_recurring_destination_limit.rs"],
  [("token account classification and accounting", "program/src/lib.rs, " + A + "sign_v2.rs"), ("limit records' run()", ST + "action/token_*.rs")],
  "breadth-first search over token histories on the real program against a reference accounting model",
  "The SPL token programs are modelled (transfer, burn, approve, set-authority, close); extensions are not.")

p("P08", "Stake movements never exceed the acting role's stake limits",
  "For every sequence of operations by a limited role, staking, unstaking and withdrawing from a stake account controlled by the wallet is charged to that role's stake limit or recurring stake limit and refused beyond it or without any stake permission; an unlimited stake permission allows it. A movement is charged once per instruction as the larger of the lamports that left and the change of delegated stake. Everything else in the stake account stays as it was.",
  [H, I, C], "all combinations of stake permissions, all histories up to the depth bound over lamport and delegation changes in either direction, all boundary values",
  T_SEQ, [A + "sign_v2.rs", ST + "action/stake_limit.rs", ST + "action/stake_recurring_limit.rs", ST + "action/stake_all.rs"],
  [("stake account classification and accounting", A + "sign_v2.rs"), ("limit records' run()", ST + "action/stake_*.rs")],
  "breadth-first search over stake histories on the real program against a reference accounting model",
  "The stake program is replaced by an arbitrary scripted program, i.e. over-approximated.")

p("P09", "Program-scope limits bound what a role moves in a named account",
  "When a limited role's permission names an account and a balance field in it, every decrease of that field is charged to that permission's own total or per-window limit and refused beyond it; the rest of the account must not change. Another role's permissions for the same account never change how the acting role is charged, and a limited role without such a permission of its own cannot use the account. Balance fields of 1, 4, 8 and 16 bytes are read exactly, and a field that does not fit the account is refused.",
  [H, I, C], "all scope kinds and number widths, several roles holding scopes on the same account, all histories up to the depth bound, all field ranges around the account's end, all boundary values",
  T_SEQ, [A + "sign_v2.rs", ST + "action/program_scope.rs", "program/src/util/mod.rs"],
  [("scope lookup and balance reading", "program/src/util/mod.rs, " + ST + "action/program_scope.rs"), ("scope accounting", A + "sign_v2.rs")],
  "breadth-first search over scope histories on the real program against a reference accounting model",
  "Target program is an arbitrary scripted program.")

p("P10", "A limited role lends the wallet's signature only to permitted programs",
  "A limited role can have the wallet sign for an inner instruction only if the called program is covered by one of its program permissions: any program, the published list of well-known programs (System, both token programs, Stake), or that exact program. Inner instructions that do not use the wallet's signature need no such permission. Only unrestricted roles are exempt from this and from all limits.",
  [I, C], "all subsets of program permissions x all called programs x all positions of the wallet in the account list x batches mixing permitted and forbidden calls",
  "Tests check one permitted and one forbidden program.",
  [A + "sign_v2.rs", ST + "action/program.rs", ST + "action/program_all.rs", ST + "action/program_curated.rs", "instructions/src/lib.rs"],
  [("permission gate before each inner instruction", A + "sign_v2.rs"), ("published program list", ST + "action/program_curated.rs"), ("signer use detection", "instructions/src/lib.rs")],
  "exhaustive enumeration of permission sets and inner instructions on the real program against a reference model",
  "Real program code in an emulated runtime.")

p("P11", "Nothing but permitted balances of wallet-owned accounts changes under limits",
  "After any operation by a limited role, the wallet's configuration account, its lamport address, and every token, stake or scoped account it controls are unchanged except for balances that were charged: ownership, authorities, delegates, close authorities, sizes and all other bytes stay as they were. A token account may only be closed by a role with the close permission. A sequence of inner instructions that would leave any such account different is refused as a whole.",
  [I, H], "every byte of every kind of protected account, every size and owner change, and all sequences up to the length bound of real token, system and wallet instructions that hand control over",
  "Tests try a few authority changes; the claim is about every byte and every sequence.",
  [A + "sign_v2.rs", "program/src/util/mod.rs"],
  [("snapshot hash before and after", "program/src/util/mod.rs hash_except, " + A + "sign_v2.rs")],
  "exhaustive enumeration of account modifications and instruction sequences on the real program",
  "A scoped account emptied of lamports by its own program without touching its data is outside the enumeration.")

p("P12", "Inner instructions run exactly as encoded",
  "When a signing request is accepted, exactly the encoded inner instructions are executed, in order, once each, with exactly the encoded program, accounts, flags and data. The only signature added is that of the wallet (or the sub-account) the request is for; an account is a signer or writable in an inner instruction only if it was so in the outer one. Any number of accounts and data length that the encoding allows is handled.",
  [I], "all account lists up to the length bound, batches of up to four instructions, all length boundaries of data and account lists, all four signing paths",
  "Tests send one or two transfers; positions, lengths and privilege bits are a product space.",
  ["instructions/src/lib.rs", "instructions/src/compact_instructions.rs", A + "sign_v2.rs", A + "sub_account_sign_v1.rs", A + "sub_account_sign_v2.rs"],
  [("compact instruction iterator and executor", "instructions/src/lib.rs")],
  "exhaustive enumeration of inner instruction lists with recording of every cross-program call the real program makes",
  "Cross-program calls are recorded at the emulated runtime's boundary.")

p("P13", "The role store stays well-formed and role identifiers are never reused",
  "After every accepted sequence of operations the configuration account decodes into exactly the roles, credentials and permissions that the operations should have produced: nothing lost, duplicated, reordered or changed for roles that were not addressed. Every new role gets a fresh identifier, greater than all earlier ones, also after removals. The account's size and rent always match its contents.",
  [H, C], "all histories up to the depth bound of adding, removing, updating, replacing and other management operations with all credential kinds and permission lists of different sizes",
  "Layout corruption shows only after particular sequences of variable-size insertions and removals.",
  [ST + "swig.rs", ST + "role.rs", ST + "tail/mod.rs", A + "add_authority_v1.rs", A + "remove_authority_v1.rs", A + "update_authority_v1.rs"],
  [("role insertion and removal", ST + "swig.rs SwigBuilder"), ("in-place resizing", A + "update_authority_v1.rs, " + A + "replace_authority_v1.rs")],
  "breadth-first search over management histories on the real program and on the state library, compared with a reference model after every step",
  "Depth-bounded; strict independent decoder.")

p("P14", "Each management operation requires the permission it is meant to require",
  "Adding, removing, updating or replacing credentials, migrating, transferring assets, closing, setting the rent claimer and the sub-account operations succeed exactly when the acting role holds one of the permissions documented for that operation (full or management permission, or the specific one, including the target it names). A role may always remove itself; the first role can never be removed. No permission intended for spending grants any management operation.",
  [I, C], "all 26 permission kinds (with matching and non-matching parameters), alone and in pairs, x all management operations x all (acting, target) pairs",
  "Tests check one allowed and one denied role per operation.",
  [A + "*.rs", ST + "action/mod.rs"],
  [("permission checks in each handler", A + "*.rs"), ("permission lookup", ST + "role.rs, " + ST + "action/mod.rs")],
  "exhaustive enumeration of permission sets and operations on the real program against a permission table",
  "Real program code in an emulated runtime.")

p("P15", "Permission updates produce exactly the requested permission list",
  "Replacing, appending, removing by kind and removing by position change the target role's permission list to exactly what was asked for, keep its order, and leave the role's credential, all other roles and the rent claimer as they were. Requests that would leave a role without permissions, duplicate a right on one numbered sub-account or carry malformed permission data are refused without any change, and kinds or positions the role does not hold are ignored. The account is resized to fit and the rent difference paid or refunded.",
  [I, H, C], "all update kinds x all permission lists up to the length bound x all positions/kinds, in wallets with roles before and after the target, with and without a rent claimer",
  "Tests update one role once; sizes, positions and neighbours are a product space.",
  [A + "update_authority_v1.rs", ST + "action/mod.rs"],
  [("update operations", A + "update_authority_v1.rs"), ("permission list validation", ST + "action/mod.rs ActionLoader")],
  "exhaustive enumeration of update requests on the real program against a reference model, plus histories",
  "Permission list length bounded.")

p("P16", "Replacing a credential changes only that credential",
  "After a replacement the target role keeps its identifier, credential kind and permissions, only the new credential is accepted for it, and every other role and the rent claimer are unchanged. A session open under the old credential does not survive. The old credential stops working immediately.",
  [I, H, C], "all credential kinds and encodings of the new credential, all positions of the target, histories with sessions and counters",
  "Tests replace one key kind once.",
  [A + "replace_authority_v1.rs"],
  [("replacement handler", A + "replace_authority_v1.rs")],
  "exhaustive enumeration of replacements on the real program against a reference model",
  "Real program code in an emulated runtime.")

p("P17", "A wallet is created once, at its own address, exactly as asked",
  "Creation succeeds only at the unique derived address of the wallet identifier and with the unique derived lamport address, only if nothing was created there before, and only with a first role that can manage the wallet. The new wallet contains exactly that one role with the given credential and permissions. No instruction sequence creates a second wallet for an identifier, re-initialises an existing one, or reuses the address of a closed one.",
  [I, H], "all credential kinds, bumps, pre-funded and pre-occupied addresses, malformed credentials and permission lists, repeated creation and creation after closing",
  "Tests create fresh wallets with correct parameters.",
  [A + "create_v1.rs", "assertions/src/lib.rs"],
  [("address and emptiness checks", A + "create_v1.rs"), ("PDA assertions", "assertions/src/lib.rs")],
  "exhaustive enumeration of creation requests on the real program against a reference model",
  "All 256 bump values enumerated for several identifiers.")

p("P18", "Closing pays out everything, only to the claimer, and only once",
  "Closing a wallet or one of its token accounts requires the right permission, an empty balance beyond rent, and, once a rent claimer has been set, pays to that claimer and nobody else. All lamports of the closed accounts arrive at the destination and a closed wallet can never be used or re-created. The rent claimer can be set once, to a valid address, and no operation other than that changes it.",
  [I, H, C], "all permission kinds x destinations x balances around the rent floor x claimer states, token account sets, and histories ending in close",
  "Tests close one wallet in one state.",
  [A + "close_swig_v1.rs", A + "close_token_account_v1.rs", A + "set_rent_claimer_v1.rs", ST + "tail/mod.rs"],
  [("close handlers", A + "close_*.rs"), ("tail record", ST + "tail/mod.rs")],
  "exhaustive enumeration and breadth-first search over closing histories on the real program against a reference model",
  "Token programs modelled.")

p("P19", "A role's sub-account is used only by it and drained only by rightful roles",
  "A sub-account is created once per granted creation permission at its role's own derived address, can sign only for the role that owns it and only while enabled, and its SOL and tokens can be withdrawn only into the main wallet, by the owning role while enabled or by another role with full permission (with management permission: only its own). Enabling and disabling is open to the owning role and to full or management roles only. No operation for one sub-account affects another.",
  [I, H, C], "all permission kinds x acting and target roles x enabled states x all sub-account operations, histories up to the depth bound, amounts around the rent floor",
  T_SEQ, [A + "create_sub_account_v1.rs", A + "sub_account_sign_v1.rs", A + "toggle_sub_account_v1.rs", A + "withdraw_from_sub_account_v1.rs", ST + "action/sub_account.rs"],
  [("sub-account record in the role's permission", ST + "action/sub_account.rs"), ("handlers", A + "*sub_account*_v1.rs")],
  "breadth-first search over sub-account histories on the real program against a reference model",
  "Token programs modelled.")

p("P20", "Numbered sub-accounts obey their per-account permissions and enabled state",
  "A numbered sub-account gets the next unused number and its own derived addresses, and the creating role gains full rights for exactly that number. Signing, withdrawing and toggling require full rights for that number or the specific right for that number; signing and withdrawing also require it to be enabled. Withdrawals go only to the main wallet, and no operation for one number affects another number or the wallet.",
  [I, H, C], "all permission kinds and numbers x all operations x enabled states, histories up to the depth bound with two wallets, amounts around the rent floor",
  T_SEQ, [A + "create_sub_account_v2.rs", A + "sub_account_sign_v2.rs", A + "toggle_sub_account_v2.rs", A + "withdraw_from_sub_account_v2.rs", ST + "sub_account_v2.rs", ST + "action/sub_account_v2.rs"],
  [("state record", ST + "sub_account_v2.rs"), ("handlers", A + "*sub_account_v2.rs")],
  "breadth-first search over sub-account histories on the real program against a reference model",
  "Token programs modelled.")

p("P21", "Migration and asset transfer move value only into the wallet's own address",
  "Migrating a legacy wallet keeps its identifier, roles, credentials and permissions, sets up its derived lamport address, and can be done only once. Transferring assets moves only lamports above the rent floor and tokens owned by the configuration account, and only to the wallet's own lamport address and token accounts owned by it. Both require full or management permission, and neither changes anything else.",
  [I, H, C], "all permission kinds, legacy layouts with one to three roles of all credential kinds, lamport amounts around the rent floor, all source/destination ownership combinations, repeated migration",
  T_SEQ, [A + "migrate_to_wallet_address_v1.rs", A + "transfer_assets_v1.rs"],
  [("migration handler", A + "migrate_to_wallet_address_v1.rs"), ("transfer handler", A + "transfer_assets_v1.rs")],
  "exhaustive enumeration and short histories on the real program against a reference model",
  "Token programs modelled.")

p("P22", "Malformed input is refused cleanly and changes nothing",
  "Every instruction whose data is cut at any length, whose lengths, indexes, kinds or counts are out of range, or whose accounts or privileges are missing, is refused without any state change, and nothing outside the data and accounts given is read or written. A changed instruction that is still accepted has exactly the effect its own bytes and accounts spell out, and only if the signing role is permitted that. Accounts of another owner or kind, and configuration accounts cut short or with tables leading outside them, are refused, never misread as a wallet.",
  [I], "every instruction kind: every truncation length, every value of every data byte, boundary values of every field, inserted and removed bytes, all pairs of header bytes; every dropped, exchanged or unprivileged account and pair of accounts; every cut of a configuration account at every length, every table boundary and role count leading outside",
  "Tests use well-formed instructions.",
  ["program/src/lib.rs", "program/src/instruction.rs", A + "*.rs", ST + "swig.rs", ST + "action/mod.rs", "instructions/src/lib.rs"],
  [("argument parsing", A + "*.rs from_instruction_bytes"), ("checked loading", ST + "swig.rs, " + ST + "role.rs, " + ST + "action/mod.rs")],
  "exhaustive corruption of every instruction and of configuration accounts, executed on the real program and decided by an independent decoder and reference model",
  "A panic counts as a refusal, as the runtime aborts the transaction; reads outside the data are detected when they change behaviour. Fields the format declares redundant (Add's action count, Remove's payload length) may hold anything. Account contents only the program can write are assumed well-formed inside their tables.")

p("P23", "Compact instruction encoding is lossless",
  "Encoding a list of instructions into the compact form and decoding it again yields the same programs, accounts, order, flags and data, for every list whose accounts and lengths fit the format. Every account an instruction uses is in the shared account list with the union of the privileges it needs, except that accounts the caller listed beforehand, like the wallet, keep the signer requirement the caller gave them, and the configuration and sub-account are never asked to sign. Truncated encodings are reported as errors.",
  [I], "all instruction lists up to the bound over a small account alphabet with all flag combinations, all length boundaries",
  "Tests round-trip one example.",
  ["instructions/src/compact_instructions.rs", "instructions/src/lib.rs"],
  [("compact_instructions builder", "instructions/src/compact_instructions.rs"), ("iterator", "instructions/src/lib.rs")],
  "exhaustive enumeration of instruction lists through the real encoder and decoder",
  "Lists whose lengths do not fit the format are outside the property.")

p("P24", "Program-execution credentials need the matching call to have just run",
  "A credential that stands for a program call authorises an operation only when the transaction contains, before it, a call to exactly that program whose data starts with the registered prefix and whose first two accounts are the same as the authorised instruction's first two. Neither its own wallet program, a later or the same instruction, another program, another prefix, nor other accounts will do. Only credentials with a usable program and prefix can be registered.",
  [I, C], "all prefix lengths, all instruction orders up to four instructions, all program/prefix/account mismatches, all explicit target indexes, all registrations",
  "Tests run one match and one mismatch.",
  [ST + "authority/programexec/mod.rs", ST + "authority/programexec/session.rs"],
  [("instruction introspection", ST + "authority/programexec/mod.rs")],
  "exhaustive enumeration of transaction shapes on the real program against a reference model",
  "Instruction sysvar built by the emulated runtime in its documented layout.")

p("P25", "Off-chain readers see the same roles and permissions the program enforces",
  "Looking up roles by credential, listing roles, and reading their permissions through the state library returns exactly what the configuration account contains, for every credential kind, every permission list and every role position. Every permission record that is written is found again by kind and parameter, and one that is absent is not found. Writing through the library and reading back is lossless, and derived addresses agree with the program's.",
  [I, C, H], "all pairs and triples of credential kinds and permission kinds in all role positions, all lookup keys; all enumeration values of every kind identifier; spend accounting of every limit record at all boundary values",
  "Tests read back one or two roles of one kind.",
  [ST + "swig.rs", ST + "role.rs", ST + "action/mod.rs", ST + "authority/mod.rs"],
  [("role views and lookups", ST + "swig.rs SwigWithRoles, " + ST + "role.rs"), ("permission records", ST + "action/*.rs")],
  "exhaustive enumeration of account contents through the library's real readers and writers against an independent decoder",
  "Direct calls of the state library's public functions.")

p("P26", "Forged, substituted or foreign accounts are refused",
  "Every account position of every instruction accepts only the account it is meant to be: an account with another address, owner, type, wallet, or sub-account number in that position makes the instruction fail without any state change. Configuration and record accounts not owned by the wallet program are never trusted. Accounts a call does not use, such as a refund receiver of the caller's choosing, may be anything.",
  [I], "every instruction kind x every fixed account position x an alphabet of substitutes (other wallet's account, forged copy with another owner, sub-account of another number or role, system account, program, duplicate of another position)",
  "Tests substitute a few accounts in a few instructions.",
  [A + "*.rs", "assertions/src/lib.rs", "program/src/lib.rs"],
  [("account checks in each handler", A + "*.rs"), ("assertion helpers", "assertions/src/lib.rs")],
  "exhaustive substitution of every account position on the real program",
  "A substitution that leaves a meaningful operation (another payer, another destination) must have exactly that operation's effect, decided by the reference model. Positions an operation does not use are free: the system program's position, a payer with nothing to pay.")

p("P27", "Client-built transactions do exactly what was asked",
  "Every transaction the client library builds (creation, role additions, removals, changes and replacements, sessions, signing, sub-account, transfer and closing operations, for every credential kind it supports) is, when the request is permitted, accepted by the program and has exactly the requested effect, and nothing else; when the request is not permitted it is refused without effect. It requires no signatures beyond the payer, the credential and those the caller asked for, and never signs with a role number, counter, slot or amount other than the ones given.",
  [I], "every client builder x every credential kind x operations, permission lists, amounts, slots, counters, role numbers and privilege combinations of inner accounts",
  "Tests build a handful of transactions with small numbers and one credential kind each; several builders were never executed at all.",
  ["interface/src/lib.rs", "instructions/src/lib.rs", "instructions/src/compact_instructions.rs", "program/src/actions/*.rs"],
  [("instruction builders", "interface/src/lib.rs"), ("compact encoding", "instructions/src/compact_instructions.rs")],
  "exhaustive enumeration of client requests; every produced transaction is executed on the real program and compared with the reference model",
  "The client library is compiled from /repo/interface with a shim re-exporting the solana-sdk items it uses. The request's slot and counter are the wallet's current ones.")

p("P28", "SDK instructions and permissions mean what was asked",
  "Every transaction the SDK's instruction builder returns, for every kind of client role it offers (keys, passkeys, program approval and sessions), is accepted by the program when the request is permitted and has exactly the requested effect, and is refused without effect otherwise; several instructions requested at once have the effect of one after the other. A permission granted through the SDK is stored as exactly the record it stands for, and the SDK reports exactly the permissions and signature counter a role holds.",
  [I], "every SDK operation x every client role kind x permission lists of up to two (quick) or three (thorough) records, amounts, batches of up to three payments",
  "The SDK's own tests need a validator emulator and cover a few roles and permissions each.",
  ["rust-sdk/src/client_role.rs", "rust-sdk/src/instruction_builder.rs", "rust-sdk/src/types.rs", "rust-sdk/src/utils.rs", "interface/src/lib.rs"],
  [("client roles", "rust-sdk/src/client_role.rs"), ("instruction builder", "rust-sdk/src/instruction_builder.rs"), ("permissions", "rust-sdk/src/types.rs")],
  "exhaustive enumeration of SDK requests; every produced transaction is executed on the real program and compared with the reference model",
  "The SDK is compiled from /repo/rust-sdk against small stand-ins for crates that are not available offline. A limit above 2^64 in a program scope, which the SDK cannot express, and lists repeating a kind of which only the first counts, are not compared in reports.")

p("P29", "An SDK wallet carries out each call of a session in order",
  "Whatever sequence of calls is made on one SDK wallet object, each call sends a transaction that carries every signature needed and has exactly the requested effect when its role may do so, and otherwise reports an error and changes nothing. After every call the wallet's signature counter, permissions and counts are those of the account on chain, so that the next call works.",
  [I], "every sequence of up to three (quick) or four (thorough) calls and waits, per kind of client role, sessions included",
  "The SDK's own tests need a validator emulator and make a handful of calls with one or two kinds of role.",
  ["rust-sdk/src/wallet.rs", "rust-sdk/src/client_role.rs", "rust-sdk/src/instruction_builder.rs", "interface/src/lib.rs"],
  [("wallet", "rust-sdk/src/wallet.rs"), ("client roles", "rust-sdk/src/client_role.rs")],
  "exhaustive enumeration of call sequences on the real SDK wallet against an emulated cluster that runs the real program, each step compared with the reference model",
  "The RPC client is a stand-in that executes the transaction on the compiled program; ed25519 signatures are real and verified. Privileges are those of the whole transaction, as on chain. Address lookup tables, token accounts and display functions are not covered.")

BUILT = set(open(os.path.join(ROOT, "tools", "built.txt")).read().split())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({k: x[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
man = dict(version=1, setup_cmd="bash ./setup.sh",
  hooks=dict(guard="none", enable="No hooks were needed: the checks compile /repo's program, state, instruction and assertion crates unmodified against a host-side runtime.", source_commits=[]),
  checks=[dict(property=x["id"], quick_cmd=f"bash ./check.sh {x['id']} quick", thorough_cmd=f"bash ./check.sh {x['id']} thorough",
    evidence_file=f"evidence/{x['id']}.json", technique="explicit-state model checking: " + x["technique"], level="model_checking", level_note=x["note"]) for x in P if x["id"] in BUILT],
  not_applicable=[dict(property=x["id"], reason="Decidable by this technique; its check is not built yet.") for x in P if x["id"] not in BUILT])
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    assert x["statement"].count(". ") <= 2, x["id"]
print(len(P), "properties,", len(man["checks"]), "checks")
