#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as code so that it stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

prop("C01", "A built bundle balances, and its balance signature key matches",
 "Whenever a bundle is built, its published value balance equals the sum of the values of all spent notes minus the sum of the values of all outputs, over every action including padding. Each action's net value commitment commits to exactly that action's spend value minus output value, and the key that will make the balance signature is the sum of exactly the trapdoors used in those commitments. A bundle whose commitments do not match that key is never returned, and the balance reported before building follows the same formula.",
 ["inputs"], "all lists of spends and outputs, all values, all random choices, all bundle types",
 "the existing property test builds a few small random bundles and never compares the balance or the signing key with the values that went in",
 ["src/builder.rs", "src/value.rs"],
 [("fold of per-action value sums, sum of trapdoors, final key comparison", "src/builder.rs bundle()"),
  ("ActionInfo::value_sum / ActionInfo::build", "src/builder.rs"),
  ("ValueCommitment::derive, Sum impls, into_bsk, into_bvk", "src/value.rs")],
 ["Bundle::value_balance", "Action::cv_net", "Bundle::binding_validating_key"])

prop("C02", "Value arithmetic reports overflow and never wraps",
 "Every operation that combines note values or signed value sums returns the mathematically exact result or reports overflow, and no in-range input panics. A signed value sum outside the documented range is never produced, and conversions of a value to a narrower or caller-chosen type succeed only when the value is representable in it. Encoded note values are read and written as 64-bit little-endian integers.",
 ["inputs"], "all pairs and sequences of 64-bit note values and of in-range signed sums",
 "value tests sample random positive values far from the boundaries; the boundaries are a few points out of 2^64",
 ["src/value.rs", "src/builder.rs"],
 [("range filter in Add for ValueSum; checked 128-bit arithmetic; TryFrom<ValueSum> for i64", "src/value.rs")],
 ["ValueSum arithmetic", "Builder::value_balance"])

prop("C03", "The builder admits only permitted, provable spends and outputs",
 "A spend is accepted only if spends are enabled for the bundle type, the full viewing key owns the note, and the note has value zero or its Merkle path leads from its own commitment to the requested anchor; an output is accepted only if outputs are enabled. Building re-checks the same conditions on whatever list it is given before producing anything, and a coinbase bundle never contains a real spend. A refused item leaves the builder unchanged, and an accepted item is recorded with exactly the values supplied.",
 ["inputs", "histories"], "all sequences of add calls and builds, for every bundle type, key, note, path and anchor",
 "tests exercise one shielding and one spending flow; no test offers a wrong anchor, a foreign key or a disabled flag to every entry point",
 ["src/builder.rs", "src/bundle.rs", "src/keys.rs"],
 [("Builder::add_spend / add_output guards; bundle() guards", "src/builder.rs"),
  ("SpendInfo::new ownership check; SpendInfo::has_matching_anchor", "src/builder.rs"),
  ("BundleType::flags / num_actions; Flags constants", "src/builder.rs, src/bundle.rs")],
 ["Builder::add_spend", "Builder::add_output", "bundle"])

prop("C04", "Proofs are created and checked against the bundle's own public data",
 "The public inputs used to create a bundle's proof and those used to verify it, alone or in a batch, are the same function of the bundle: its anchor and flags and, per action in order, that action's net value commitment, nullifier, randomized key and new commitment. Each of these values occupies its own fixed slot of the statement, both when it is assembled and where the circuit reads it. Verification uses every action's inputs and succeeds only if the underlying proof check succeeds.",
 ["inputs"], "all bundles and all actions in them",
 "a test that creates and verifies with the same wrong mapping still passes; tests verify only honest bundles",
 ["src/circuit.rs", "src/action.rs", "src/bundle.rs", "src/bundle/batch.rs", "src/builder.rs"],
 [("Action::to_instance; Bundle::to_instances; Instance::to_halo2_instance; constrain_instance offsets", "src/action.rs, src/bundle.rs, src/circuit.rs"),
  ("Proof::create / verify / add_to_batch; Bundle::verify_proof; create_proof", "src/circuit.rs, src/bundle.rs, src/builder.rs")],
 ["Bundle::verify_proof", "Bundle::create_proof", "BatchValidator::add_bundle"])

prop("C05", "Batch validation accepts only if every queued item is valid",
 "After any sequence of additions, batch validation returns true only if every spend authorization signature verifies under its own action's key, every balance signature verifies under its bundle's balance key, each over the signature hash given with that bundle, and every bundle's proof verifies against that bundle's public inputs. No bundle, action, signature or proof that was added is skipped. An empty batch is valid.",
 ["inputs", "histories"], "all sequences of bundles (authorized, honest or not) and signature hashes added to a batch",
 "no test puts an invalid signature or proof into a batch",
 ["src/bundle/batch.rs", "src/bundle.rs", "src/circuit.rs", "src/primitives/redpallas.rs"],
 [("BatchValidator::add_bundle / validate", "src/bundle/batch.rs"),
  ("Bundle::binding_validating_key; VerificationKey::create_batch_item; Proof::add_to_batch", "src/bundle.rs, src/primitives/redpallas.rs, src/circuit.rs")],
 ["BatchValidator::validate"])

prop("C06", "Only a completely and correctly signed bundle becomes authorized",
 "A bundle becomes fully authorized only when every action carries a spend authorization signature; otherwise finalization is an error. Every signature made for a bundle is over the one signature hash given at preparation: the balance signature with the bundle's balance key, and each spend signature with the authorizing key re-randomized by that action's own randomizer, applied only to actions whose validating key matches the signer, with padding spends signed by their own keys. An externally supplied signature is accepted only if it verifies under exactly one still unsigned action's randomized key and the bundle's signature hash.",
 ["inputs", "histories"], "all orders of prepare, sign, append and finalize, all key sets, all supplied signatures",
 "tests apply the right keys once; no test appends external signatures, omits a signer or mixes keys",
 ["src/builder.rs", "src/primitives/redpallas.rs", "src/keys.rs"],
 [("prepare / sign / append_signature / finalize / MaybeSigned::finalize", "src/builder.rs"),
  ("SigningKey::sign, VerificationKey::verify, randomize wrappers", "src/primitives/redpallas.rs, src/keys.rs")],
 ["Bundle::finalize", "Bundle::apply_signatures", "Bundle::append_signatures"])

prop("C07", "Changing a bundle's authorization or balance type changes nothing else",
 "Transforming a bundle's authorization data or its value-balance type keeps every other part of the bundle and of each of its actions unchanged and in order: nullifiers, randomized keys, new commitments, ciphertexts, net value commitments, flags, anchor and action order. Every action's own authorization is passed through the transformation exactly once, at its own position, and an error from it is returned. Accessors return the part they name.",
 ["inputs"], "all bundles, all transformation functions, all reachable authorization states",
 "the existing tests transform bundles but never compare the untouched parts before and after",
 ["src/bundle.rs", "src/action.rs"],
 [("map_value_balance, try_map_value_balance, map_authorization, try_map_authorization", "src/bundle.rs"),
  ("Action::map, Action::try_map, from_parts, accessors", "src/action.rs")],
 ["Bundle accessors", "Action accessors"])

prop("C08", "Bundle digests commit to every effecting and authorizing field once",
 "The transaction-effects digest of a bundle covers, for each action in order, the nullifier, commitment, ephemeral key, all of the note ciphertext split at bytes 52 and 564, net value commitment, randomized key and outgoing ciphertext, then flags, value balance and anchor, each exactly once and in the order and sub-digest that the transaction-digest standard assigns. The authorizing-data digest covers the proof bytes, then every spend authorization signature in order, then the balance signature. Every digest, including those of absent bundles, is personalized with its own standard tag.",
 ["inputs"], "all bundles, with any number of actions and any field contents",
 "no test in the repository compares a bundle digest with anything",
 ["src/bundle/commitments.rs", "src/bundle.rs"],
 [("hash_bundle_txid_data / hash_bundle_auth_data / *_empty and the personalization constants", "src/bundle/commitments.rs"),
  ("Bundle::commitment / authorizing_commitment; Flags::to_byte", "src/bundle.rs")],
 ["Bundle::commitment", "Bundle::authorizing_commitment"])

prop("C09", "What note encryption writes is what note decryption reads",
 "The encryption side and every decryption side (incoming, outgoing and compact) agree on where each part of the plaintext lives: version byte, diversifier, value, random seed and memo, and for the outgoing form the transmission key and the ephemeral secret. A plaintext with another version byte is rejected, the decrypted note takes its nullifier-derived part from the action being decrypted, and the ephemeral key, shared secret, outgoing cipher key and batch results are computed from the matching components of the same note, key and action. The prepared data of every ciphertext stays at its own position in batch operations.",
 ["inputs"], "all notes, memos, keys and actions, alone and in batches of any length",
 "fixed vectors and one property test cover single notes; compact, batch and outgoing mismatches in position or component go unobserved",
 ["src/note_encryption.rs", "src/keys.rs", "src/note.rs"],
 [("note_plaintext_bytes / parse_note_plaintext_without_memo / outgoing plaintext / domain methods", "src/note_encryption.rs"),
  ("shared secret and KDF; batch_to_affine positions", "src/keys.rs")],
 ["Bundle::decrypt_*", "Domain implementation"])

prop("C10", "Only canonical, non-degenerate encodings are accepted",
 "Every public decoder of a field element, curve point, key, address, nullifier, commitment or anchor rejects non-canonical bytes, and rejects the identity point and zero wherever the type excludes them. No value of a type that promises to be non-zero, non-identity or canonically signed is constructed without that check or an arithmetic reason for it. A spend validating key is accepted only with a cleared sign bit and never as the identity.",
 ["inputs"], "all byte strings given to decoders, and all construction sites of the checked types",
 "tests decode valid vectors; the rejected encodings are not sampled",
 ["src/spec.rs", "src/keys.rs", "src/address.rs", "src/note.rs", "src/note/commitment.rs", "src/note/nullifier.rs", "src/tree.rs", "src/value.rs", "src/primitives/redpallas.rs"],
 [("NonIdentityPallasPoint::from_bytes, NonZero*::guarantee and their callers", "src/spec.rs"),
  ("from_bytes decoders of every module", "src/**")],
 ["all from_bytes / TryFrom decoders"])

prop("C11", "Degenerate spending and viewing keys are never accepted",
 "A spending key or a full viewing key is accepted, from bytes or by derivation, only if it yields a non-zero authorizing key and valid incoming viewing keys in both the external and the internal scope. A decoded incoming viewing key has a non-zero scalar. Rejection is reported to the caller as an absent value or an error.",
 ["inputs"], "all 32-byte spending keys, 96-byte full viewing keys, 64-byte incoming viewing keys and derivation seeds",
 "degenerate keys have negligible probability under random sampling and no test constructs one",
 ["src/keys.rs", "src/zip32.rs"],
 [("SpendingKey::from_bytes, FullViewingKey::from_bytes, IncomingViewingKey::from_bytes, KeyAgreementPrivateKey::from_bytes", "src/keys.rs"),
  ("check_structural_validity and hierarchical derivation checks", "src/keys.rs, src/zip32.rs")],
 ["SpendingKey::from_bytes", "FullViewingKey::from_bytes", "IncomingViewingKey::from_bytes"])

prop("C12", "Encoders and decoders of keys, addresses and flags mirror each other",
 "For every serializable type (full viewing key, incoming viewing key, address, spending key, diversifier key, note parts, flags, nullifiers, commitments, anchors and tree hashes) the decoder reads each component from the same bytes where the encoder writes it, and the components fill the whole encoding without overlap. A decoded value therefore has the components that were encoded. A flags byte with any reserved bit set is rejected, and each flag has its own bit.",
 ["inputs"], "all values of each serializable type and all byte strings of its length",
 "vectors pin a few encodings in one direction; the reverse direction of most decoders is not exercised",
 ["src/keys.rs", "src/address.rs", "src/bundle.rs", "src/note.rs", "src/tree.rs", "src/value.rs"],
 [("to_bytes / from_bytes pairs; Flags::to_byte / from_byte; serde impls of tree hashes", "src/**")],
 ["to_bytes / from_bytes pairs"])

prop("C13", "Every derived key uses its own domain, inputs and scope",
 "Each key in the key tree is derived from exactly the parent components the protocol prescribes, under its own domain separator, with the sign of the authorizing key normalized and scalars reduced from wide output. The internal scope uses the internally derived randomness and the external scope the original one, consistently for incoming keys, outgoing keys, diversifier keys, addresses and commitment randomness. Addresses, diversifiers and outgoing keys obtained through different routes for the same scope and index are the same.",
 ["inputs"], "all spending keys, scopes, diversifier indices and derivation routes",
 "vectors fix the external route for ten keys; agreement of internal and alternative routes is unsampled",
 ["src/keys.rs", "src/spec.rs", "src/address.rs", "src/note.rs"],
 [("From impls of the key types, derive_internal, rivk, to_ivk, to_ovk, address, address_at, derive_dk_ovk_bytes", "src/keys.rs"),
  ("commit_ivk, diversify_hash, prf wrappers, extract_p", "src/spec.rs")],
 ["FullViewingKey", "IncomingViewingKey", "OutgoingViewingKey", "Address"])

prop("C14", "Hierarchical derivation binds seed, purpose, coin type, account and path",
 "A key derived for a seed, coin type and account follows exactly the hardened path purpose, coin type, account, in this order, with the protocol's purpose constant, and a coin type or index outside the hardened range is an error. Each child key is computed from its parent's chain code, parent's spending key and its own index, and records its parent's fingerprint, its index and a depth one greater than its parent's. A failed derivation at any level is reported, never replaced.",
 ["inputs"], "all seeds, coin types, accounts and derivation paths",
 "one small set of vectors; error paths and metadata of children are unsampled",
 ["src/zip32.rs", "src/keys.rs"],
 [("ExtendedSpendingKey::from_path / master / derive_child", "src/zip32.rs"),
  ("SpendingKey::from_zip32_seed", "src/keys.rs")],
 ["SpendingKey::from_zip32_seed"])

prop("C15", "A Merkle root binds the leaf, its position and every sibling",
 "The root computed from an authentication path hashes, at every level from the leaf upward, the running node with that level's own sibling, tagged with that level's number, with the side chosen by that bit of the position. Empty subtrees and uncommitted leaves use the protocol's fixed values with the same node hash, and a witness for the circuit carries the same position and siblings in the same order.",
 ["inputs"], "all leaves, 32-bit positions and authentication paths",
 "a few fixed paths are tested; a fault in one level or one position bit needs a specific path to show",
 ["src/tree.rs", "src/constants/sinsemilla.rs", "src/circuit.rs"],
 [("MerklePath::root, Hashable for MerkleHashOrchard", "src/tree.rs"), ("circuit witness assignment", "src/circuit.rs")],
 ["MerklePath::root"])

prop("C16", "Per-action secrets are fresh draws from the caller's random source",
 "Every built action has its own commitment trapdoor, its own signature randomizer and its own note seed, and every padding spend or output has its own random key, note and path; each is drawn from the random source passed by the caller, once per action, and never derived from public data, reused between actions or replaced by a constant. Key, signature and proof randomness come from the same caller-provided source. Nothing else in the library draws randomness.",
 ["inputs", "histories"], "all bundle shapes and all random sources",
 "reuse or a constant secret produces bundles that verify, so functional tests pass",
 ["src/builder.rs", "src/note.rs", "src/keys.rs", "src/value.rs", "src/tree.rs"],
 [("ActionInfo::new / build; SpendInfo::dummy; OutputInfo::dummy; Note::new; RandomSeed::random", "src/builder.rs, src/note.rs"),
  ("redpallas sign; Proof::create", "src/primitives/redpallas.rs, src/circuit.rs")],
 ["built bundles"])

prop("C17", "Bundles are padded and shuffled as specified and their metadata is right",
 "The number of actions is the larger of the requested spends and outputs, raised to the minimum for non-empty or required ordinary bundles, exactly the number of outputs for coinbase bundles, and no bundle is produced when it is zero. Spends and outputs are each padded with dummies to that number and each independently shuffled before being paired, so every requested item appears in exactly one action. The returned metadata maps every requested spend and output to the position of the action that contains it.",
 ["inputs"], "all counts of spends and outputs, all bundle types, all shuffles",
 "tests build one or two actions; they do not relate metadata to the actions' contents",
 ["src/builder.rs"],
 [("BundleType::num_actions; pairing and shuffling in bundle(); BundleMetadata", "src/builder.rs")],
 ["BundleMetadata", "Bundle::actions"])

prop("C18", "A note's commitment and nullifier bind all of its contents",
 "A note's commitment is computed from all of its recipient's diversified base and transmission key, value, nullifier-derived part and seed-derived randomness, in the protocol's order and bit widths, with seed-derived secrets separated by domain and bound to the nullifier-derived part. Its nullifier is computed from that same commitment, nullifier-derived part and seed-derived value with the owner's nullifier key, and does not depend on anything else. A note whose seed gives no valid commitment or a zero ephemeral secret is never constructed, and two notes are equal exactly when their commitments are.",
 ["inputs"], "all recipients, values, nullifier-derived parts, seeds and keys",
 "fixed vectors sample ten notes; dropped or swapped inputs outside their paths, and rejected seeds, are unsampled",
 ["src/note.rs", "src/note/commitment.rs", "src/note/nullifier.rs", "src/spec.rs"],
 [("Note::commitment, Note::nullifier, Note::from_parts, RandomSeed", "src/note.rs"),
  ("NoteCommitment::derive; Nullifier::derive", "src/note/commitment.rs, src/note/nullifier.rs")],
 ["Note::commitment", "Note::nullifier"])

prop("C19", "An action's public fields and its private witness describe the same action",
 "In every built action the revealed nullifier is that of the spent note, the new note's nullifier-derived part is that nullifier, the revealed commitment and ciphertexts are those of the new note with the requested recipient, value and memo, and the randomized key is the spend's validating key re-randomized with the randomizer kept for signing. The proof witness built for that action contains the same spent note, path, owner key of the right scope, new note, randomizer and trapdoor, each in its own place. A witness is only created from public parts when the new note is bound to the spent one.",
 ["inputs"], "all spends, outputs, scopes and random choices",
 "tests prove external-scope spends only, and a wrong witness component appears only for particular inputs",
 ["src/builder.rs", "src/circuit.rs", "src/note.rs"],
 [("ActionInfo::build", "src/builder.rs"), ("Circuit::from_action_context(_unchecked)", "src/circuit.rs")],
 ["built bundles"])

prop("C20", "Decryption and recovery return only validated results, rightly attributed",
 "Bulk decryption and recovery try every given key on the right actions and return each success with the position of its action and the key that decrypted it; none is dropped, duplicated or attributed to another position or key. A single-action query looks only at the action at the given position and gives no result when it does not exist. Results come only from the validated decryption procedure, applied to that action's own ciphertexts, keys and commitments.",
 ["inputs"], "all bundles, key lists and positions",
 "tests decrypt one action with one key",
 ["src/bundle.rs", "src/note_encryption.rs", "src/action.rs"],
 [("decrypt_outputs_with_keys, decrypt_output_with_key, recover_outputs_with_ovks, recover_output_with_ovk", "src/bundle.rs"),
  ("ShieldedOutput impls; OrchardDomain::for_action", "src/note_encryption.rs")],
 ["Bundle::decrypt_*", "Bundle::recover_*"])

prop("C21", "Address ownership answers are exact",
 "A viewing key claims an address, and reports its diversifier index, only if regenerating the address from the key at that index gives the whole address back, diversifier and transmission key both. The scope reported for an address is the scope whose incoming key owns it, checked for both scopes. Address equality compares both components.",
 ["inputs"], "all viewing keys and addresses, including addresses that share a diversifier",
 "addresses that share one component but not the other do not occur in tests",
 ["src/keys.rs", "src/address.rs"],
 [("IncomingViewingKey::diversifier_index, FullViewingKey::scope_for_address", "src/keys.rs")],
 ["IncomingViewingKey::diversifier_index", "FullViewingKey::scope_for_address"])

prop("C22", "Untrusted bundles, notes and encodings never cause a panic",
 "Decoding bytes, parsing note plaintexts, decrypting, computing digests, validating and verifying never panic on data an adversary may supply, whatever its content; failure is reported as an absent value, an error or false. In particular a failed decoding of an adversary-supplied group or field element is always handled. The library contains no code exempt from memory safety checks.",
 ["inputs"], "all byte strings, and all bundles constructible from decoded parts",
 "tests feed honest data to verification and decryption",
 ["src/circuit.rs", "src/bundle.rs", "src/bundle/batch.rs", "src/note_encryption.rs", "src/keys.rs", "src/note.rs", "src/lib.rs"],
 [("handling of decoder results; forbid(unsafe_code)", "src/**")],
 ["Bundle::verify_proof", "BatchValidator", "decoders", "decryption"])

prop("C23", "Keys, parameters and constants used by prover and verifier agree",
 "The proving key and the verifying key are generated for the same circuit with the same parameter size, and proofs are created and verified with those same parameters and transcript. The fixed-base tables handed to the circuit are, for each base, the generator, window and sign tables of that same base, and the bases used outside the circuit are the ones used inside it. Domain-separation strings shared by code inside and outside the circuit are the same constants.",
 ["configurations"], "all fixed bases, table entries' owners and uses of proving parameters",
 "tests pin one verifying key; agreement between the in-circuit and out-of-circuit constants at every use is unsampled",
 ["src/circuit.rs", "src/constants.rs", "src/constants/fixed_bases.rs", "src/constants/sinsemilla.rs", "src/spec.rs", "src/value.rs"],
 [("ProvingKey::build, VerifyingKey::build, Proof::*", "src/circuit.rs"),
  ("FixedPoint impls of the fixed base enums", "src/constants/fixed_bases.rs")],
 ["ProvingKey::build", "VerifyingKey::build"])

prop("C24", "Comparing, ordering, selecting and copying values look at every component",
 "For keys, addresses, notes, nullifiers, commitments, roots and the other value types: two values compare equal exactly when all of their identifying components are equal (notes, which are canonically defined by their commitments, when their commitments are equal); an ordering is Equal only for equal values and is otherwise determined by the components; constant-time selection returns its first operand for 0 and its second for 1 in every component; and a clone or copy is its original.",
 ["inputs"], "all pairs of values of every type that is compared, ordered, selected or cloned, including pairs that differ in one component only",
 "a test compares a few values that are equal or differ everywhere; pairs that differ in one component only are not sampled",
 ["src/keys.rs", "src/note.rs", "src/note/nullifier.rs", "src/note/commitment.rs", "src/address.rs", "src/zip32.rs", "src/tree.rs", "src/value.rs", "src/primitives/redpallas.rs"],
 [("PartialEq, ConstantTimeEq, PartialOrd, Ord, ConditionallySelectable and Clone impls, derived or written", "src/**")],
 ["PartialEq, Ord and Clone of the key, note, address and tree types"])

prop("C25", "The action circuit constrains every part of the action statement",
 "Any assignment that satisfies the action circuit's constraints satisfies, for the values in its public inputs, every condition of the action statement: the net value commitment commits to old minus new value under the proper bases; the nullifier, the randomized spend key and the new note's commitment are derived from the witnessed notes and keys; the old note's address belongs to the viewing key of the spend; both note commitments and the incoming viewing key are taken over canonical encodings; the old note is in the tree with the public anchor or has value zero; a disabled spend or output has value zero; and the new note's rho is the old note's nullifier. No part of a condition rests on an unconstrained copy.",
 ["inputs"], "all witnesses, also those no honest prover would choose",
 "tests prove honest witnesses only, which satisfy a circuit whether or not a constraint is present",
 ["src/circuit.rs", "src/circuit/note_commit.rs", "src/circuit/commit_ivk.rs", "src/circuit/gadget.rs", "src/circuit/gadget/add_chip.rs"],
 [("custom gates, copy constraints, gadget calls", "src/circuit.rs configure(), synthesize()"),
  ("canonicity checks of the hashed messages", "src/circuit/note_commit.rs, src/circuit/commit_ivk.rs"),
  ("derivation of the nullifier, value commitment integrity, field addition", "src/circuit/gadget.rs, src/circuit/gadget/add_chip.rs")],
 ["Circuit::synthesize", "Circuit::configure", "Proof::verify"])

prop("C26", "Building, proving, signing and key derivation report failures, never panic",
 "Creating keys, notes, bundles, proofs and signatures never panics on valid input: a request that cannot be met (values out of range, disabled spends or outputs, mismatched anchors, missing, foreign or duplicate signatures, an unsatisfiable bundle type) is reported as an error, and invalid random draws are drawn again. A ZIP 32 seed of 32 to 252 bytes is accepted, and a seed of any other length is refused by the documented panic, never used.",
 ["inputs", "configurations"], "all requests, note values, bundle types, signing histories, random draws and seed lengths",
 "tests build a few bundles with valid requests; rejected random draws do not occur in any test run",
 ["src/builder.rs", "src/note.rs", "src/keys.rs", "src/zip32.rs", "src/value.rs", "src/circuit.rs", "src/bundle.rs", "src/action.rs"],
 [("bundle(), ActionInfo::build, prepare/sign/append_signatures/finalize", "src/builder.rs"),
  ("rejection loops of RandomSeed::random, SpendingKey::random, Note::new", "src/note.rs, src/keys.rs"),
  ("ExtendedSpendingKey::master", "src/zip32.rs")],
 ["builder::bundle", "Builder::build", "Bundle::create_proof", "SpendingKey::from_zip32_seed"])

prop("C27", "Reported memory use counts every heap-owning part once",
 "For every type that reports its dynamic memory use (bundles, actions, proofs, prepared viewing keys, nullifiers and decryption domains), the use reported is the sum, over every part of the value that owns heap memory, of that part's own reported use, each part counted exactly once; a value none of whose parts owns heap memory reports zero. The reported lower and upper bounds are the corresponding sums of the parts' bounds, and there is no upper bound when some part has none.",
 ["inputs"], "all bundles, proofs and prepared keys, all balance types",
 "no test looks at the reported use, and a part that is left out or counted twice changes no other result",
 ["src/bundle.rs", "src/action.rs", "src/circuit.rs", "src/keys.rs", "src/spec.rs", "src/note_encryption.rs"],
 [("DynamicUsage implementations", "src/bundle.rs, src/circuit.rs, src/keys.rs, src/spec.rs, src/action.rs, src/note_encryption.rs")],
 ["DynamicUsage::dynamic_usage", "DynamicUsage::dynamic_usage_bounds"])

prop("C30", "The action circuit is sound and zero-knowledge",
 "No prover can create an accepted proof for an action that violates the action statement, and an accepted proof reveals nothing beyond its public inputs.",
 ["inputs"], "all (malicious) provers and witnesses",
 "honest round trips say nothing about provers that deviate",
 ["src/circuit.rs", "src/circuit/note_commit.rs", "src/circuit/commit_ivk.rs", "src/circuit/gadget.rs"],
 [("custom gates, copy constraints and lookup arguments", "src/circuit.rs, src/circuit/**")])

prop("C31", "Honestly built bundles verify, and honestly encrypted notes decrypt",
 "Every bundle built, proved and signed through the public API verifies, and every output it contains is decrypted by its recipient and recovered by its sender.",
 ["inputs"], "all honest inputs",
 "tests sample a few bundles",
 ["src/builder.rs", "src/circuit.rs", "src/note_encryption.rs"],
 [("end-to-end pipeline", "src/**")])

prop("C32", "Commitments hide, and shuffles and ciphertexts are indistinguishable",
 "The public parts of a bundle are computationally independent of which notes are real, of their values and of their recipients.",
 ["inputs"], "all efficient distinguishers",
 "a distribution over random choices; tests see single draws",
 ["src/builder.rs", "src/value.rs", "src/note_encryption.rs"],
 [("randomized commitments, padding, shuffling, encryption", "src/**")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
