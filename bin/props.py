#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the one place their text lives)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "programs/asset/program/src/processor/"
T = "programs/asset/types/src/"
PROC = [P + "mod.rs", "programs/asset/program/src/utils.rs"]
TESTS = ("The Rust tests in the baseline are unit tests of the data types (builders, constraints, extension lookup); the "
         "program's instructions are only exercised by JavaScript tests against a validator, on a few hand-made accounts each. ")

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, state=(), note=""):
    PROPS.append(dict(id=id, title=title, statement=statement,
                      quantifier=dict(over=over, text=text), why_tests_cant=TESTS + why,
                      anchors=dict(files=files,
                                   state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                   mechanism=[dict(name=a, where=b) for a, b in mech],
                                   observe_at=["process_instruction: accepted or refused, and the account bytes and lamports afterwards"],
                                   hook_needed=None), _note=note))


prop("C01", "Only the owner, its delegate or the manager transfers an asset",
     "A transfer is accepted only when signed by the current owner, by the delegate holding the transfer role, or by the manager "
     "holding the transfer role; and a signer with one of these rights is not refused for lack of authority. "
     "The group authority, the asset authority or any other key never suffices.",
     ["inputs"], "every signer, owner, delegate and role combination, recipient and asset content, with and without a manager extension",
     "No test quantifies over keys and role bits, so a comparison dropped for one combination goes unseen.",
     [P + "transfer.rs"] + PROC, [("assert_delegate", "utils.rs"), ("process_transfer", "processor/transfer.rs")])
prop("C02", "A transfer changes the owner and nothing else but the delegate",
     "After an accepted transfer the asset belongs to the recipient and its delegate is cleared when a real change of owner takes place; "
     "every other byte of the asset, of the group and of every other account, and every balance, is as before.",
     ["inputs"], "every asset content, delegate state and recipient, including transfers to the current owner",
     "Frame conditions over all bytes cannot be sampled.",
     [P + "transfer.rs"], [("process_transfer", "processor/transfer.rs")])
prop("C03", "A soulbound asset never changes owner",
     "A transfer of a soulbound asset is refused whoever signs it and whatever delegates, managers, groups or royalties the asset has.",
     ["inputs"], "every signer and every state of a soulbound asset",
     "One refused transfer in a test does not exclude another path (delegate, manager, royalty) that skips the check.",
     [P + "transfer.rs"], [("standard check", "processor/transfer.rs")])
prop("C04", "A locked asset is frozen",
     "While an asset is locked it cannot be transferred, burned or locked again and delegates can neither be approved nor revoked; "
     "only the unlock rules can end this.",
     ["inputs", "histories"], "every locked asset and every signer, for each of the guarded instructions",
     "The lock must hold for every path into each instruction, not the sampled ones.",
     [P + x for x in ("transfer.rs", "burn.rs", "lock.rs", "approve.rs", "revoke.rs")] + PROC,
     [("validate_access", "processor/mod.rs")], [("state", "locked or unlocked", "byte 1 of the asset account")])
prop("C05", "Instructions act only on initialized assets of the program",
     "Every instruction on an asset is refused unless the account belongs to the program, is long enough and is initialized as an asset "
     "(creation: a new account or an uninitialized buffer of the program). "
     "An instruction on a proxied asset is refused unless the asset account itself signs. "
     "Allocation and writing go the other way round: they are refused on an initialized asset.",
     ["inputs"], "every account given as asset: any owner program, length below or above the header size, discriminator, standard and signature",
     "Tests pass well-formed accounts; forged accounts owned by other programs are the attack surface.",
     PROC + [P + x for x in ("approve.rs", "burn.rs", "lock.rs", "transfer.rs", "group.rs", "verify.rs", "handover.rs", "update.rs", "remove.rs", "resize.rs", "allocate.rs", "write.rs")],
     [("validate_access", "processor/mod.rs"), ("require! checks at the head of each instruction", "processor/*.rs")])
prop("C06", "Lock and unlock obey the delegation rules",
     "An asset is locked or unlocked only by the delegate with the lock role, by the manager with the lock role, or by the owner when no delegate is set; "
     "these signers are not refused for lack of authority. Only the lock state changes.",
     ["inputs"], "every signer, delegate, role set and asset state, with and without manager",
     "The rule is an exact characterisation over all key and role combinations.",
     [P + "lock.rs", P + "unlock.rs", "programs/asset/program/src/utils.rs"],
     [("process_lock / process_unlock", "processor/lock.rs, processor/unlock.rs"), ("assert_delegate", "utils.rs")])
prop("C07", "Approve and revoke give exactly the roles asked for, on the owner's word",
     "Only the owner approves a delegate, and the delegate then has exactly the requested roles. Only the owner or the delegate itself revokes, "
     "and afterwards exactly the revoked roles are gone, with the delegate cleared when none is left. Nothing else changes.",
     ["inputs"], "every signer, delegate, previous role set and requested role list (all, or up to three roles)",
     "Role arithmetic over all old and new role sets is not enumerated by tests.",
     [P + "approve.rs", P + "revoke.rs", T + "state/delegate.rs"],
     [("DelegateRoles enable/disable", "types/src/state/delegate.rs"), ("process_approve / process_revoke", "processor/")])
prop("C08", "Only the owner or a burn delegate burns, and a burn is complete",
     "An asset is burned only by its owner, its delegate with the burn role or the manager with the burn role. A burn empties and closes the account, "
     "pays its whole balance to the recipient and reduces its group's size by one; a group with members cannot be burned.",
     ["inputs"], "every signer, delegate, role set, group membership and recipient",
     "Conservation of lamports and size counters must hold for every state.",
     [P + "burn.rs", P + "close.rs"] + PROC, [("process_burn", "processor/burn.rs"), ("close_program_account", "utils.rs")])
prop("C09", "Royalty rules are enforced on every transfer",
     "An asset with royalties of its own, or, having none, a member of a group with royalties, is transferred to another owner only if the royalty rule accepts the transfer (asset, authority, recipient); "
     "a member without royalties of its own is transferred only with its group account present, so a group rule cannot be bypassed. "
     "Only wallet-to-wallet transfers (not through another program, signer and recipient both owned by the system program) are exempt from the rule. "
     "A rule that accepts never blocks the transfer.",
     ["inputs"], "every rule operand, asset, authority and recipient, with rules on the asset, on the group, and on both",
     "The rule has to hold for every recipient; tests try a handful.",
     [P + "transfer.rs", T + "extensions/royalties.rs", T + "constraints/mod.rs"],
     [("constraint assertion in process_transfer", "processor/transfer.rs")])
prop("C11", "Group membership and size always agree",
     "An asset joins a group only with the signature of the group's authority or its grouping delegate, only if both have the same authority, and only while the maximum size allows. "
     "Joining sets the asset's group and adds one to the group's size, leaving clears it and subtracts one; nothing else changes. "
     "A group is created empty, an update of its grouping data never changes its size nor sets a maximum below it, and the grouping data is removed only while the group is empty.",
     ["inputs", "histories"], "every asset, group, size, maximum and signer; current and legacy group layouts",
     "Counter and reference must agree after any sequence; each instruction is checked from every pre-state.",
     [P + "group.rs", P + "ungroup.rs", P + "create.rs", P + "burn.rs", P + "update.rs", P + "remove.rs", T + "extensions/grouping.rs"],
     [("process_group / process_ungroup", "processor/"), ("Grouping on_create", "types/src/extensions/grouping.rs")])
prop("C12", "Creation initializes exactly the requested asset, once",
     "An asset is created only in a new account or an uninitialized buffer that signs, never over an existing asset, with rent paid by a signing payer. "
     "The new asset has the given owner, authority, name, standard and mutability, no delegate, is unlocked, and keeps the extension data of the buffer.",
     ["inputs"], "every owner, authority, payer, signature combination and previous account content",
     "Re-initialization and missing-signature attacks need all pre-states.",
     [P + "create.rs", P + "allocate.rs"], [("process_create", "processor/create.rs")])
prop("C13", "Creator shares add up to 100 and verified creators have signed",
     "Whenever creators are written their shares add up to exactly 100. A creator is marked verified only by its own signature (as signing authority at creation or update, "
     "or through the verify instruction); an update neither verifies others nor drops or unverifies a verified creator.",
     ["inputs"], "every creator list (addresses, flags, shares), with every authority, signing or not",
     "Share arithmetic can wrap and flags can be forged in the input bytes; tests use well-formed lists.",
     [T + "extensions/creators.rs", P + "create.rs", P + "update.rs"],
     [("Creators lifecycle on_create / on_update", "types/src/extensions/creators.rs")])
prop("C14", "A creator verifies and unverifies itself only",
     "Verify and unverify are accepted only from a signing creator listed in the asset, set or clear exactly that creator's flag, and change nothing else.",
     ["inputs"], "every creator list of up to three entries and every signer",
     "Position-dependent mistakes need every list position and key.",
     [P + "verify.rs", P + "unverify.rs"], [("process_verify / process_unverify", "processor/")])
prop("C15", "Buffers belong to their key and hold what was written",
     "A buffer account is allocated, written and closed only with its own signature and only while it is not an initialized asset. "
     "Allocation and writing, in one piece or in several, leave the extensions with exactly the data sent, byte for byte and in the order sent; no more than the "
     "declared length is ever written and an extension type is never allocated twice. The account grows as needed, its rent paid exactly by a signing payer. "
     "Using a buffer for an update copies its data and does not alter the buffer's header. "
     "Closing pays its whole balance to the recipient and empties it.",
     ["inputs"], "every account content, signature combination, recipient and buffer layout within the bounds",
     "Safety over all account contents.",
     [P + "close.rs", P + "allocate.rs", P + "write.rs", P + "update.rs", "programs/asset/program/src/utils.rs"],
     [("process_close / process_allocate / process_write", "processor/")])
prop("C16", "Updates change what the authority asked for, while the asset is mutable",
     "An asset is updated only while it is mutable and only by its signing authority. The name, the mutability and the one extension given (in the instruction or in a buffer account) "
     "become as requested; everything that was not asked for stays as before. Immutability is final. When an extension grows, shrinks or is added, the account is resized to fit and "
     "its rent paid exactly by a signing payer (or refunded). "
     "An update with an acceptable change, whatever the lengths of the old and new data and with or without room behind the last extension, is not refused.",
     ["inputs"], "every asset content, signer, name and payload, for extension data of smaller, equal and larger size, in first, middle and last place, given directly or by buffer",
     "The moves of the extension data depend on all relative sizes and positions; tests update one hand-made asset.",
     [P + "update.rs"] + PROC, [("process_update", "processor/update.rs"), ("resize", "utils.rs")],
     [("mutable", "whether the asset may be updated", "byte 3 of the asset account")])
prop("C17", "Extensions are stored intact, aligned and chained",
     "Extension data is stored exactly as given, each extension starts where the previous one's 8-byte-aligned boundary ends, and operations on one extension leave the data of the others as they were.",
     ["inputs"], "every payload of the listed extension layouts",
     "Byte-exact preservation for all payloads.",
     [P + "create.rs", P + "allocate.rs", P + "update.rs", P + "remove.rs", T + "extensions/mod.rs"],
     [("save_extension_data", "processor/allocate.rs"), ("boundary arithmetic", "processor/update.rs")])
prop("C18", "Removing an extension takes out that one and nothing else",
     "An extension is removed only by the asset's signing authority while the asset is mutable. Afterwards exactly that extension is gone: the others keep their data and order, the account shrinks by the "
     "space of the removed one and the recipient gets exactly the rent set free. A present extension can be removed wherever it stands and whatever its length; "
     "an absent extension, the room behind the last extension, a manager and a proxy extension cannot.",
     ["inputs"], "every content and payload with the extension first, in the middle and last, with and without room behind the last extension",
     "Memory moves and boundaries for every position and payload.",
     [P + "remove.rs", "programs/asset/program/src/utils.rs"], [("process_remove", "processor/remove.rs")])
prop("C19", "Resizing changes an asset's spare room and nothing else",
     "An asset's account is resized only by its signing authority while the asset is mutable. Trimming takes away exactly the room behind the last extension, extending adds exactly the requested room; "
     "the contents are unchanged and the difference in rent is paid by the signing payer, or refunded to it.",
     ["inputs"], "every content, signature combination and balance; trimming and extending by different amounts",
     "Content preservation and exact rent for every content.",
     [P + "resize.rs", "programs/asset/program/src/utils.rs"], [("process_resize", "processor/resize.rs")])
prop("C20", "Authority moves only between two signatures",
     "The authority of an asset is handed over only while the asset is mutable and only when the current authority and the new one both sign; afterwards the new one is the authority and nothing else changed.",
     ["inputs"], "every asset content and every pair of signers",
     "All key pairs and all bytes of the asset.",
     [P + "handover.rs"], [("process_handover", "processor/handover.rs")])
prop("C22", "Royalties never exceed 100 percent",
     "No asset is created with, or updated (directly or by buffer) to, royalties above 10000 basis points; values up to 10000 are accepted.",
     ["inputs"], "every 64-bit basis-point value",
     "Boundary and high-word values.",
     [T + "extensions/royalties.rs", P + "create.rs"], [("Royalties lifecycle", "types/src/extensions/royalties.rs")])
prop("C23", "Managed and proxied assets have exactly their extension",
     "An asset is created as managed if and only if it has a manager, and as proxied if and only if it has a proxy extension whose derived address is the asset's own address. "
     "Updates and removals never add, remove or empty a manager or proxy extension.",
     ["inputs"], "each standard with and without the extension, every key and every derived address",
     "Address derivation and key comparison over all values.",
     [P + "create.rs", P + "update.rs", P + "remove.rs", T + "extensions/proxy.rs", T + "extensions/manager.rs"], [("process_create", "processor/create.rs")])

NA = []

TECH = "bounded symbolic execution of the compiled Rust MIR (Kani encoding), decided by a SAT solver (CBMC + CaDiCaL), counterexamples replayed natively"
NOTE = ("Every assertion holds for all values of the symbolic inputs within the harness bounds (account layouts, sizes and argument shapes as written in the "
        "harness; unwinding assertions on). Trusts Kani/CBMC, the model of System Program CPIs and of the runtime calls, and wrapping (release) arithmetic.")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            q = {k: v for k, v in p.items() if not k.startswith("_")}
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps(q) + "\n")
        for q in [n[2] for n in NA]:
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps(q) + "\n")
    m = dict(version=1, setup_cmd="python3 bin/check.py --setup",
             checks=[dict(property=p["id"], quick_cmd="python3 bin/check.py %s" % p["id"],
                          thorough_cmd="python3 bin/check.py %s --tier thorough" % p["id"],
                          evidence_file="evidence/%s.json" % p["id"], technique=TECH, level="other",
                          level_note=(p["_note"] + " " if p["_note"] else "") + NOTE) for p in PROPS],
             not_applicable=[dict(property=a, reason=b) for a, b, _ in NA],
             hooks=dict(guard="cfg(kani)", enable="set by the Kani compiler when bin/check.py encodes the program; no other build sees the hook",
                        source_commits=["b377a30201786c26c3bb09c10532c1efe323ce8e"]),
             notes="See DESIGN.md and KNOWN_FINDINGS.txt.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")


if __name__ == "__main__":
    main()
