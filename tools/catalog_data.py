# -*- coding: utf-8 -*-
DIRECT_BINS = {"h_handles_utils", "h_avro", "h_cli"}
HOOKS = None
NOTES = ("One property-based-testing engine (engine/), harness crates under harness/, an offline FRAME stand-in "
         "under shim/ so that the real pallet sources of /repo compile without network. See DESIGN.md.")

HU = "pallets/handles/src/handles-utils/src/"

# ---------------------------------------------------------------- handles-utils
prop("H01", "Handle suffixes enumerate the configured range exactly once",
 "For every inclusive suffix range and every canonical handle, the suffix sequence yields every number of the range exactly once and then ends, and the same handle and range always yield the same sequence. The order depends on the handle, so two handles do not share one predictable order, and it never changes between releases, because the chain stores only a position in the sequence.",
 ["inputs", "configurations"],
 "all ranges min<=max of 16-bit numbers (including one-element ranges and ranges ending at 65535) and all canonical handle strings",
 "Tests try two or three ranges and a handful of handles; an off-by-one at one end of the range, a repeated value or an overflow at the top of the 16-bit range is invisible to them.",
 [HU + "suffix.rs"],
 [("seeded lazy Fisher-Yates shuffle", HU + "suffix.rs generate_unique_suffixes, generate_seed")],
 bin="h_handles_utils", technique="property-based testing: permutation + determinism + metamorphic oracle",
 note="Random search over ranges and handles with boundary bias; all-range sequences are consumed to their end.")

prop("H02", "Look-alike handles collapse to one canonical form",
 "Converting a handle to canonical form is a deterministic function, and any two handles that differ only by ASCII letter case, combining diacritical marks, whitespace, composed or decomposed spelling, or documented look-alike characters (those without a decomposition of their own) have the same canonical form. Characters that are neither whitespace, combining marks nor documented look-alikes are only lower-cased and decomposed, never dropped or merged.",
 ["inputs"],
 "all Unicode strings, in particular strings over the supported scripts, look-alike table rows, combining marks and whitespace",
 "Tests compare a few fixed words; the guarantee is about every character of the look-alike table and every combination of case, mark and spacing.",
 [HU + "converter.rs", "pallets/handles/src/handles-utils/build.rs", "pallets/handles/src/handles-utils/src/data/confusable_characters.txt"],
 [("canonical conversion", HU + "converter.rs convert_to_canonical, replace_confusables, strip_diacriticals, strip_unicode_whitespace"),
  ("look-alike table generation", "pallets/handles/src/handles-utils/build.rs")],
 bin="h_handles_utils", technique="property-based testing: reference model + metamorphic relations",
 note="Oracle re-derives the look-alike relation from the data file and Unicode NFKD data; equality with a reference converter plus metamorphic equalities.")

prop("H03", "Display handles split back into the base handle and suffix they were made from",
 "Splitting a display handle made of a base handle, the delimiter and a decimal suffix returns exactly that base and suffix. Any text that is not of that form (no delimiter, no or non-numeric suffix, suffix above 65535) is rejected rather than misread, and no text makes the split crash.",
 ["inputs"],
 "all base strings without delimiter, all 16-bit suffixes, and arbitrary Unicode text",
 "Tests check one success and one or two failures; the inverse law over all bases and suffixes is not sampled.",
 [HU + "converter.rs", "pallets/handles/src/handles-utils/constants.rs"],
 [("split on delimiter and parse suffix", HU + "converter.rs split_display_name")],
 bin="h_handles_utils", technique="property-based testing: round-trip and rejection oracle",
 note="Round-trip by construction; malformed text classified by an independent parser.")

prop("H04", "Handle text is accepted only from supported, unreserved, unblocked characters",
 "Text is recognised as consisting of supported characters exactly when every character lies in one of the published script ranges; characters outside the basic plane are never supported. A canonical handle is recognised as reserved exactly when it is one of the reserved words, and a text as blocked exactly when it contains one of the blocked punctuation characters.",
 ["inputs"],
 "all Unicode strings; every single code point; every position of a blocked character; every look-alike spelling of a reserved word",
 "Tests use a few hand-picked strings; the acceptance set is a set of code points over more than a million values, and truncation errors at its edges are not reached.",
 [HU + "validator.rs", "pallets/handles/src/handles-utils/constants.rs", "pallets/handles/src/handles-utils/build.rs"],
 [("character range test", HU + "validator.rs consists_of_supported_unicode_character_sets"),
  ("reserved words", HU + "validator.rs is_reserved_handle"),
  ("blocked characters", HU + "validator.rs contains_blocked_characters")],
 bin="h_handles_utils", technique="property-based testing: differential against an independent character classifier",
 note="Every code point is tried alone on each run; strings are generated.")

# ---------------------------------------------------------------- avro helpers
AV = "common/helpers/src/avro.rs"
prop("A01", "Data written with a schema reads back unchanged",
 "For every Avro record schema and every record of that schema, serialising the record's fields with the schema and then reading the bytes with the same schema returns exactly the same field names and values. Serialising twice gives payloads that both read back to the same record, and records appended through the data writer come back out of the container unchanged and in order.",
 ["inputs"],
 "all record schemas over the Avro types and all records conforming to them, including nested records, unions, enums, fixed values, empty collections, extreme numbers and empty or large strings",
 "Tests write two or three fixed records; field order, optional fields, nested types and extreme values are not sampled.",
 [AV],
 [("populate and serialise", AV + " populate_schema_and_serialize, get_schema_data_writer"),
  ("read back", AV + " get_schema_data_map")],
 bin="h_avro", technique="property-based testing: round-trip over generated schemas and records",
 note="Schemas and conforming values are generated together; equality is value equality with NaN identified.")

prop("A02", "Schema text is accepted exactly when it is a schema and keeps its meaning",
 "A text is accepted as a schema exactly when it is a well-formed Avro schema. Its normalised text is itself accepted, is unchanged by normalising again, denotes the same type, and does not depend on whitespace, attribute order or documentation in the original.",
 ["inputs"],
 "all generated Avro schemas in differing textual spellings, and all mutations of them into malformed text",
 "Tests normalise one or two schemas; whether normalising preserves meaning for every schema shape is a law over all inputs.",
 [AV],
 [("fingerprint / translate / validate", AV + " fingerprint_raw_schema, translate_schema, validate_raw_avro_schema")],
 bin="h_avro", technique="property-based testing: idempotence, metamorphic re-spelling, differential against the schema generator",
 note="Validity is known by construction (generated valid schemas; mutations with a known defect).")

prop("A03", "Reading or checking arbitrary bytes fails cleanly",
 "Reading a payload against a schema, or translating or checking schema text, never crashes for any bytes: it returns either a value or an error. A payload cut short, or written with an incompatible schema, is never reported as a complete record with different content.",
 ["inputs"],
 "arbitrary bytes, truncated and bit-flipped payloads, payloads of other schemas, arbitrary schema text",
 "Tests feed one or two bad inputs; absence of crashes and silent misreads is a claim over every input.",
 [AV],
 [("error propagation", AV + " get_schema_data_map, translate_schema, validate_raw_avro_schema")],
 bin="h_avro", technique="property-based testing and mutation fuzzing with a no-crash / no-misread oracle",
 note="Bounded sizes so that hostile length fields cannot exhaust memory; bit flips inside values may legitimately read as other values and are only checked for crash freedom.")

prop("O01", "Block sealing modes parse from and print to their documented names",
 "Each sealing mode is selected by its documented command-line name (instant, manual, interval) and by no other text, exactly these three are offered, and printing a mode gives its name, differing at most in letter case, so that reading it ignoring case gives the mode back.",
 ["inputs"],
 "all texts, every documented mode name with case changes, prefixes and suffixes",
 "No existing test touches it; the claim covers every text.",
 ["node/cli-opt/src/lib.rs"],
 [("value enum", "node/cli-opt/src/lib.rs SealingMode")],
 bin="h_cli", technique="property-based testing: round-trip and rejection oracle",
 note="Names are fixed from the documentation.")

prop("O02", "A development node makes blocks exactly when its sealing mode says",
 "In development mode a node that is an authority makes a finalized block holding each transaction as soon as it is ready in the pool (instant), a finalized block at the end of every configured interval (interval; when nothing waits, only if empty blocks are asked for), or no block at all of its own accord (manual). In every mode it carries out commands to seal or finalize in the order given, with exactly the asked parent, finality, emptiness and justification (tagged for manual sealing), answers each, and goes on serving them. A node that is no authority makes and finalizes nothing and takes no commands.",
 ["histories", "schedules"],
 "all schedules of arriving transactions and commands, intervals from one second to the largest, blocks that take time to make, empty blocks on or off, authority or not",
 "No existing test touches it; the claim covers every schedule.",
 ["node/service/src/block_sealing.rs"],
 [("dev sealing", "node/service/src/block_sealing.rs frequency_dev_sealing, run_seal_command")],
 bin="h_sealing", technique="property-based testing: generated schedules under a virtual clock against a model of when blocks are due",
 note="The unchanged block_sealing.rs runs on stand-ins for client, pool, network and task manager that record what is asked of them, under tokio's paused clock. Transactions that arrive at the very moment an interval ends may go into that block or the next.")

# ---------------------------------------------------------------- handles pallet
HP = "pallets/handles/src/lib.rs"
prop("N01", "A handle names at most one account and an account has at most one handle",
 "After any history of claims, changes and retirements, and of changes of the configured suffix range, every active display handle belongs to exactly one account, every account has at most one handle, and the two lookups (account to handle, handle to account) are inverse to each other. A display handle once issued is never issued again, even after it is retired, as long as the suffix range is unchanged.",
 ["histories"],
 "all sequences of claim, change and retire calls by many accounts over colliding base handles until suffixes run out, across blocks",
 "Tests claim a handful of handles in fixed orders; uniqueness over all histories, including exhaustion and re-claims after retirement, is not settled by them.",
 [HP, HU + "suffix.rs", "pallets/handles/src/handles_signed_extension.rs"],
 [("claim and retire", HP + " do_claim_handle, do_retire_handle"), ("suffix cursor", HP + " get_next_suffix_index_for_canonical_handle")],
 state=[("CanonicalBaseHandleAndSuffixToMSAId", "handle to account", HP), ("MSAIdToDisplayName", "account to handle", HP), ("CanonicalBaseHandleToSuffixIndex", "next suffix position", HP)],
 bin="h_handles", technique="stateful model-based property testing", note="Sequences of up to a few hundred calls against a reference registry.")

prop("N02", "Handle claims need the owner's fresh signature and cannot be replayed",
 "A handle is claimed or changed for an account only when a key of that account signed exactly that base handle and expiry, and only strictly before the expiry and within the permitted window. A rejected call changes nothing, and the retirement of a handle is refused at the transaction pool until the claim's signature can no longer be used again.",
 ["histories", "inputs"],
 "all histories mixing valid, expired, too-far-future, wrongly signed and replayed claim payloads with block progress",
 "Tests check isolated bad signatures; replay of an earlier payload after later operations is a property of histories.",
 [HP, "pallets/handles/src/handles_signed_extension.rs"],
 [("signature window", HP + " verify_signature_mortality, verify_signed_payload"), ("retire gate", "pallets/handles/src/handles_signed_extension.rs validate_retire_handle")],
 bin="h_handles", technique="stateful model-based property testing with signature and replay mutation")

prop("N03", "Handle queries predict and explain what claiming does",
 "The advertised next suffixes for a base handle are exactly the suffixes that following claims of that handle receive, in order. A base handle that passes the public validity check and the length rules is claimable when suffixes remain, one that fails it never is, and the reported base, suffix and canonical form of a claimed handle recombine to its display handle.",
 ["histories", "inputs"],
 "all base handles over supported and unsupported characters and all claim histories",
 "Tests compare one fixed prediction; agreement between query and effect is over all states.",
 [HP], [("queries", HP + " get_next_suffixes, get_handle_for_msa, get_msa_id_for_handle, validate_handle")],
 bin="h_handles", technique="stateful property testing: prediction versus effect")

# ---------------------------------------------------------------- msa
MS = "pallets/msa/src/lib.rs"
prop("M01", "Every control key belongs to at most one account and key counts are exact",
 "After any history of account creation, key addition, key deletion and retirement, each public key controls at most one account, each account's recorded number of keys equals the number of keys that resolve to it, and that number never exceeds the configured maximum. Account numbers are issued in increasing order and never reissued.",
 ["histories"],
 "all sequences of create, sponsored create, add key, delete key and retire calls by many keys, with valid and invalid proofs",
 "Tests exercise single calls from hand-made states; the invariant ties all calls together over histories.",
 [MS], [("key table and counter", MS + " create_account, add_key, delete_key_for_msa, get_next_msa_id")],
 state=[("PublicKeyToMsaId", "key to account", MS), ("PublicKeyCountForMsaId", "keys per account", MS), ("CurrentMsaIdentifierMaximum", "last issued account number", MS)],
 bin="h_msa", technique="stateful model-based property testing")

prop("M02", "Delegation permissions hold until the block they end in, and not after",
 "For every delegator, provider, schema and block, the answer to 'may this provider act here' is yes exactly when a grant of that schema is recorded and the latest such grant had not ended before that block (the chain keeps no starting block, so a recorded grant also answers for earlier blocks); it lasts through the block it ends in and never covers blocks after the current one. A grant ends when the schema is revoked, when either side revokes the delegation, or when a new grant leaves the schema out. Only a new grant of the same schema revives a permission that ended, and no operation alters the permissions of other delegators or providers.",
 ["histories"],
 "all sequences of grants, schema grants and revocations, revocations from both sides, re-grants and block progress, queried at past, present and boundary blocks",
 "Tests check a few fixed timelines; the answer is a function of the entire history and queried block.",
 [MS, "pallets/msa/src/types.rs", "common/primitives/src/msa.rs"],
 [("delegation record", "pallets/msa/src/types.rs PermittedDelegationSchemas"), ("query", MS + " ensure_valid_schema_grant, ensure_valid_delegation, get_granted_schemas_by_msa_id, upsert_schema_permissions, revoke_provider")],
 bin="h_msa", technique="stateful model-based property testing with historical queries")

prop("M03", "Account changes need the affected owner's signature, once",
 "A key is added to an account only with fresh signatures by both an owner key and the new key over the same payload, and an account is sponsored or a delegation granted only with a fresh signature of the delegator over exactly those terms. A signature accepted once is never accepted again while it is unexpired, an expired or too-far-dated one is never accepted, and a refused call leaves all state unchanged.",
 ["histories", "inputs"],
 "all histories mixing valid payloads with ones whose signer, field, expiry or signature is altered, and replays of earlier accepted payloads at every later point",
 "Tests try each refusal in isolation; replay resistance quantifies over histories, and no-effect-on-refusal over all calls.",
 [MS], [("signature registry", MS + " register_signature, do_register_signature, verify_signature"), ("payload checks", MS + " add_public_key_to_msa, grant_delegation, create_sponsored_account_with_delegation")],
 bin="h_msa", technique="stateful model-based property testing with payload mutation and replay")

prop("M04", "Free account transactions are admitted only when they would succeed",
 "A fee-free account transaction (retire account, delete key, revoke delegation from either side) passes transaction validation only if executing it in that state succeeds, and it then does exactly what it says. An account can be retired only when it has one key, no handle, no active delegation and is not a provider; a key can be deleted only by another key of the same account, however the call arrives.",
 ["histories"],
 "all reachable account states and all fee-free calls by any key, related or not",
 "Tests check the validation of isolated calls; agreement of validation with execution over all reachable states is not tested.",
 [MS], [("free-use gate", MS + " CheckFreeExtrinsicUse::validate_*, ensure_msa_can_retire, delete_msa_public_key, retire_msa")],
 bin="h_msa", technique="stateful property testing: validation versus execution differential")

prop("M05", "The accepted-signature record is bounded and forgets only expired entries",
 "The record of accepted signatures never holds more than its configured maximum, drops an entry only when that entry has expired, and otherwise refuses new signatures. Its internal chain stays intact under every history of insertions, evictions and refusals.",
 ["histories", "configurations"],
 "all sequences of signatures with arbitrary expiries and block progress, for several small capacities",
 "Tests fill the record in a fixed order; wrap-around and out-of-order expiries are histories they do not reach.",
 [MS], [("linked list of signatures", MS + " enqueue_signature, do_register_signature")],
 bin="h_msa", technique="stateful model-based property testing")

prop("M06", "The off-chain key index converges to the on-chain key table",
 "After the off-chain worker has processed every block of any history of key changes, its account-to-keys index equals the on-chain table. Processing blocks late or in batches gives the same result, and no key change is lost or applied twice. A worker that dies at any point, is locked out, or gets no usable answer from its node neither crashes nor loses changes: the next run makes up for it.",
 ["histories", "schedules"],
 "all histories of key additions and deletions over blocks, with the worker run after every block or after any number of blocks, cut off after any storage operation, and any answer of the node",
 "Tests run the worker over one or two blocks; convergence is over histories and worker schedules.",
 ["pallets/msa/src/offchain_storage.rs", "common/primitives/src/offchain.rs"],
 [("per-block event index and worker", "pallets/msa/src/offchain_storage.rs offchain_index_event, do_offchain_worker")],
 bin="h_msa", technique="stateful property testing with generated worker schedules")

# ---------------------------------------------------------------- messages
MG = "pallets/messages/src/lib.rs"
prop("G01", "Every accepted message is stored once, in order, and reads back verbatim",
 "Within a block, accepted messages receive consecutive positions from zero in order of acceptance, and querying a schema and block returns exactly the messages accepted for it, in order, with the payload or content address, length, provider and author that were submitted. Later blocks and rejected messages never change what a query returns, and every block with messages is announced exactly once.",
 ["histories", "inputs"],
 "all sequences of accepted and rejected message calls for several schemas over blocks",
 "Tests post a few messages; order and completeness are over all histories and interleavings of schemas.",
 [MG, "pallets/messages/src/types.rs"], [("store and index", MG + " add_message, on_initialize"), ("query", MG + " get_messages_by_schema_and_block; types.rs map_to_response")],
 bin="h_messages", technique="stateful model-based property testing")

prop("G02", "Messages are accepted only from entitled senders with well-formed content",
 "A message is accepted only from a registered key, for an existing schema of the matching storage kind, within the size limit, and on behalf of another account only with a currently valid permission for that schema. A content address is accepted only if it is a well-formed version-1-or-later identifier; every refusal leaves no trace.",
 ["inputs", "histories"],
 "all combinations of sender, schema, author, size and content address, in states where permissions come and go",
 "Tests check each refusal once; the acceptance condition is a conjunction over all inputs and states.",
 [MG], [("checks", MG + " add_ipfs_message, add_onchain_message, validate_cid")],
 bin="h_messages", technique="model-based property testing of the acceptance condition; CID mutation fuzzing")

prop("G03", "Paged message reading returns each message exactly once",
 "Reading a block range page by page, following the returned position until none is left, returns every message of the range exactly once and in order, for every page size. Invalid ranges or page sizes are refused.",
 ["inputs", "histories"],
 "all message distributions over blocks, all ranges and page sizes at and around the limits",
 "Tests check fixed boundary cases of one step; completeness is over whole multi-step readings.",
 ["common/primitives/src/messages.rs", "pallets/messages/src/rpc/src/lib.rs"],
 [("pagination", "common/primitives/src/messages.rs BlockPaginationRequest, check_end_condition_and_set_next_pagination")],
 bin="h_messages", technique="property-based testing: completeness of simulated paged reading")

# ---------------------------------------------------------------- schemas
SC = "pallets/schemas/src/lib.rs"
prop("S01", "Registered schemas are numbered consecutively and never change",
 "Each accepted registration receives the next consecutive schema number, and from then on the schema's text, model type, storage kind and settings read back exactly as registered, whatever is registered, refused or reconfigured later. Numbers not yet issued read back as absent.",
 ["histories"],
 "all histories of registrations through every registration call (direct, proposed, governed, named or not), refused ones and limit changes",
 "Tests register one or two schemas; immutability under later calls is over histories.",
 [SC, "pallets/schemas/src/types.rs"], [("registration", SC + " create_schema_for, add_schema, get_schema_by_id")],
 bin="h_schemas", technique="stateful model-based property testing")

prop("S02", "Schema names resolve to an append-only list of versions",
 "A schema name is read case-insensitively, must have a namespace and descriptor of letters and inner hyphens within the length limits, and maps to the schemas registered under it with versions 1, 2, 3 and so on in order of registration. A schema carries at most one name, and looking up a namespace lists exactly the versions of all its descriptors.",
 ["histories", "inputs"],
 "all name texts and all histories of named registrations and later namings",
 "Tests parse a list of fixed names and add a few versions; parsing is over all texts and versions over histories.",
 [SC, "pallets/schemas/src/types.rs"], [("name parsing and versions", "pallets/schemas/src/types.rs SchemaName::try_parse, SchemaVersionId"), ("one name per schema", SC + " parse_and_verify_schema_name, create_schema_name_via_governance")],
 bin="h_schemas", technique="stateful model-based property testing with a reference name parser")

prop("S03", "Only well-formed schema models within limits are registered",
 "A registration is accepted only if its model is a JSON object (Avro) or a well-formed column list (Parquet), its size lies between the fixed minimum and the governed maximum, and append-only is requested only for itemised storage. The governed maximum can be changed only by governance and never beyond the hard limit; every refusal changes nothing.",
 ["inputs", "histories"],
 "all model texts around the size limits, all types, storage kinds and setting lists, under changing governed limits",
 "Tests try fixed models; the acceptance condition is over all inputs and governed limits.",
 [SC, "pallets/schemas/src/serde.rs", "common/primitives/src/parquet.rs"], [("validation", SC + " ensure_valid_model, create_schema_for, set_max_schema_model_bytes; serde.rs validate_json_model")],
 bin="h_schemas", technique="model-based property testing with structured and mutated JSON")

# ---------------------------------------------------------------- stateful storage
ST = "pallets/stateful-storage/src/lib.rs"
STT = "pallets/stateful-storage/src/types.rs"
prop("T01", "Itemised storage behaves as an ordered list edited atomically",
 "Applying a list of add and delete actions to an account's itemised storage removes exactly the items named by their positions before the call, keeps the order of the rest and appends the additions in order; either all actions take effect or none. Reading returns exactly the current items with their positions, and the size limits for items, pages and actions are never exceeded.",
 ["histories", "inputs"],
 "all sequences of action lists with duplicate, out-of-range and boundary-size items, on several accounts and schemas",
 "Tests apply a few fixed action lists; list semantics over all action lists and histories is not settled.",
 [ST, STT, "pallets/stateful-storage/src/stateful_child_tree.rs"], [("itemised page update", STT + " ItemizedOperations::apply_item_actions, try_parse"), ("update", ST + " update_itemized")],
 bin="h_stateful", technique="stateful model-based property testing against a list model")

prop("T02", "Paginated storage keeps each page independently and verbatim",
 "Writing a page makes exactly that page of that account and schema read back as written, deleting removes it, and no other page, schema, account or storage kind is affected. Enumerating an account's pages returns exactly the existing pages with their identifiers and content; page numbers and sizes above the limits are refused.",
 ["histories", "inputs"],
 "all sequences of page writes and deletes over accounts, schemas and page numbers including boundaries",
 "Tests write one or two pages; isolation and enumeration are over all key combinations and histories.",
 [ST, "pallets/stateful-storage/src/stateful_child_tree.rs"], [("child-tree keys", "pallets/stateful-storage/src/stateful_child_tree.rs"), ("update", ST + " update_paginated, delete_paginated")],
 bin="h_stateful", technique="stateful model-based property testing against a map model")

prop("T03", "Concurrent and replayed storage writes are refused",
 "A write or delete succeeds only if it names the hash of the page's current state, the hash changes with every successful change to a non-empty state, however often the page is changed, and read queries and events report the same hashes. A signed write accepted once cannot be applied a second time by replaying it, even when the page content has since returned to what it was.",
 ["histories"],
 "all histories of interleaved writes with current and stale hashes and replays of every earlier signed payload within its lifetime",
 "Tests try one stale hash; replay safety is over histories that return to earlier content.",
 [ST, STT], [("state hash with nonce", STT + " Page::get_hash, nonce"), ("target hash check", ST + " update_itemized, update_paginated, delete_paginated")],
 bin="h_stateful", technique="stateful property testing with replay of all earlier payloads")

prop("T04", "Storage is written only by the owner, permitted delegates or by owner signature",
 "A direct write succeeds only for the owner or a provider holding a currently valid permission for the schema, and a signed write only with a fresh valid signature by a key of the owner over exactly that content. Append-only schemas never lose items, signature-required schemas are never changed by a delegate's direct write, and writes to a schema of another storage kind are refused; every refusal leaves no trace.",
 ["histories", "inputs"],
 "all combinations of caller, owner, schema settings, permission state, signature validity and expiry over histories",
 "Tests check each refusal once; the access rule is a conjunction over all states.",
 [ST], [("access checks", ST + " check_schema_for_write, check_grants, check_msa_and_grants, check_payload_expiration, check_signature")],
 bin="h_stateful", technique="model-based property testing of the access rule")

prop("T05", "Stored pages encode and parse without loss and never crash on any bytes",
 "Encoding a list of items as a page and parsing it returns the same items, encoding then decoding a whole page returns the same counter and data, and storage keys read back and enumerate by prefix. Parsing arbitrary bytes either yields items that account for every byte or is refused, without crashing.",
 ["inputs"],
 "all item lists within limits and arbitrary byte strings",
 "Tests parse a few fixed pages; the codec law is over all inputs.",
 [STT], [("page codec", STT + " Page encode/decode, ItemizedOperations::try_parse")],
 bin="h_stateful", technique="property-based testing: round-trip, differential parser, byte fuzzing")

# ---------------------------------------------------------------- capacity
CA = "pallets/capacity/src/lib.rs"
CT = "pallets/capacity/src/types.rs"
prop("C01", "Staked tokens are locked exactly until withdrawn and never lost",
 "At every point of any history the tokens frozen for staking equal the staker's active stake plus the stake being unlocked, staking and unstaking never change any balance or the total supply, and a staker can always eventually recover everything staked. Staking never takes the spendable balance below the required minimum.",
 ["histories"],
 "all histories of stake, unstake, withdraw and transfers by many stakers and targets over epochs",
 "Tests run short fixed scenarios; conservation is over all histories.",
 [CA, CT], [("staking ledger and freeze", CA + " increase_stake_and_issue_capacity, set_staking_account, do_unstake, do_withdraw_unstaked; types.rs StakingDetails")],
 bin="h_capacity", technique="stateful model-based property testing with conservation invariants")

prop("C02", "Provider capacity equals what its stakers' stakes issued",
 "At every point each provider's staked total and issued capacity equal the sums over its stakers' individual stakes and issued capacity, and each staker's active stake equals the sum of that staker's stakes over all providers. Issued capacity follows the configured ratio, rounded to the nearest unit. Unstaking takes tokens only from what is staked to that provider (a remainder of at most the minimum stake goes with it) and removes capacity in proportion, rounded up, never more than the staker's stake had issued.",
 ["histories"],
 "all histories of stake and unstake by many stakers to many providers, including partial unstakes that fall below the minimum",
 "Tests check ledgers after one or two calls; the cross-ledger sums are history invariants.",
 [CA, CT], [("three ledgers", CA + " increase_stake_and_issue_capacity, reduce_capacity, calculate_capacity_reduction; types.rs CapacityDetails, StakingTargetDetails")],
 bin="h_capacity", technique="stateful model-based property testing with ledger invariants")

prop("C03", "Capacity refills once per epoch and is never overspent",
 "A provider's remaining capacity never exceeds its issued capacity, spending succeeds exactly when enough remains and reduces it by exactly the amount, and a refill restores it to the issued amount at most once per epoch. Epochs advance exactly when the configured number of blocks has passed, and changes of the epoch length are limited and made only by governance. The interface other modules use (balance, spend, refill fully or by an amount) does exactly that for the named provider and is refused without effect for an account without capacity.",
 ["histories", "configurations"],
 "all histories of staking, spending, refilling, epoch-length changes and block progress",
 "Tests step one or two epochs; the refill and spend rules are over histories.",
 [CA, CT], [("epoch clock", CA + " start_new_epoch_if_needed"), ("spend and refill", CA + " deduct, replenish_all_for, can_replenish")],
 bin="h_capacity", technique="stateful model-based property testing")

prop("C04", "Unstaked tokens thaw exactly after the waiting period",
 "Unstaked tokens can be withdrawn exactly from the configured number of epochs after unstaking, neither earlier nor never, each exactly once, and the number of waiting portions never exceeds the limit. A withdrawal with nothing thawed is refused without effect.",
 ["histories"],
 "all histories of unstakes and withdrawals at arbitrary epochs",
 "Tests use one or two portions; timing and exactly-once are over histories.",
 [CA, CT], [("unlocking chunks", CA + " add_unlock_chunk, do_withdraw_unstaked; types.rs unlock chunk helpers")],
 bin="h_capacity", technique="stateful model-based property testing")

# ---------------------------------------------------------------- time release
TR = "pallets/time-release/src/lib.rs"
prop("R01", "A release schedule unlocks in equal steps, completely, and never re-locks",
 "For every valid schedule the locked amount equals the full amount until the first period has passed, decreases by one instalment per period, reaches zero exactly at the schedule's end and never increases with time. Schedules whose end or total cannot be represented are refused, and no valid schedule makes the computation fail at any block.",
 ["inputs"],
 "all schedules (start, period, count, instalment over their whole ranges) and all block numbers",
 "Tests evaluate two schedules at a few blocks; extremes of the number ranges are not reached.",
 ["pallets/time-release/src/types.rs", TR], [("schedule arithmetic", "pallets/time-release/src/types.rs end, total_amount, frozen_amount"), ("validation", TR + " ensure_valid_release_schedule")],
 bin="h_time_release", technique="property-based testing against wide-integer reference arithmetic")

prop("R02", "Time-released funds stay locked until due and are fully recoverable afterwards",
 "After any history, an account's frozen amount is at least what its schedules still lock and, right after a claim, exactly that; transfers move exactly the scheduled total and the total supply never changes. Rejected calls change nothing, a schedule list never exceeds its limit, and once all schedules end a claim frees everything.",
 ["histories"],
 "all histories of scheduled transfers (also to self), claims, claims for others, root updates and ordinary transfers over blocks",
 "Tests run fixed scenarios of one or two schedules; the lock invariant is over histories.",
 [TR], [("freeze upkeep", TR + " do_transfer, do_claim, prune_and_get_frozen_balance, do_update_release_schedules")],
 bin="h_time_release", technique="stateful model-based property testing")

# ---------------------------------------------------------------- tx payment
TP = "pallets/frequency-tx-payment/src/lib.rs"
prop("F01", "A capacity-paid transaction charges the caller's capacity and nothing else",
 "A transaction paid with capacity is admitted only if every wrapped call is eligible, the signer controls a registered account with enough capacity after an epoch refill, and then costs exactly the computed fee in capacity and no tokens. If it is refused nothing is charged; all other transactions pay tokens and no capacity.",
 ["histories", "inputs"],
 "all transactions (eligible, ineligible, nested, batches at and over the limit), signers and capacity states over epochs",
 "Tests charge one call from prepared states; the charging rule is over all calls and states.",
 [TP, "pallets/frequency-tx-payment/src/payment.rs"], [("fee withdrawal", TP + " withdraw_capacity_fee, withdraw_token_fee, post_dispatch"), ("capacity adapter", "pallets/frequency-tx-payment/src/payment.rs")],
 bin="h_tx_payment", technique="stateful model-based property testing")

prop("F02", "The quoted capacity fee equals the charged fee and grows with size and weight",
 "The fee quoted for a capacity transaction of at least one call equals the fee charged for it, is the sum of a base part, a weight part from the fixed weight table and a length part, and never decreases when the transaction gets longer or contains more calls. Fee computation never overflows.",
 ["inputs"],
 "all call lists, lengths and weights over their ranges",
 "Tests compare a few constants; monotonicity and agreement are over all inputs.",
 [TP, "runtime/common/src/fee.rs", "pallets/frequency-tx-payment/src/capacity_stable_weights.rs"], [("fee formula", TP + " compute_capacity_fee, compute_capacity_fee_details")],
 bin="h_tx_payment", technique="property-based testing: differential quote versus charge, monotonicity")

prop("F03", "Each account nonce is used once and free calls create no account",
 "A transaction executes only with the account's current nonce and each execution advances it by one, so no transaction of an existing account executes twice; stale and future nonces are told apart, and the pool's dependency tags link consecutive nonces. A fee-free call from an account that does not exist leaves no account record behind.",
 ["histories"],
 "all histories of transactions with current, stale and future nonces from existing and absent accounts, free and paid",
 "Tests cover single steps; exactly-once is over histories.",
 ["runtime/common/src/extensions/check_nonce.rs"], [("nonce extension", "runtime/common/src/extensions/check_nonce.rs CheckNonce")],
 bin="h_tx_payment", technique="stateful model-based property testing")

# ---------------------------------------------------------------- passkey
prop("F04", "Weights and pool priorities cannot be understated or bought",
 "A call that pays with capacity or runs with a passkey declares at least the weight of every call it wraps plus that of charging or of its checks, has the class of the single call it wraps, always pays, and reports at least the weight its calls used. The priority of a call paid with capacity follows its weight and length and cannot be raised with a tip; every other transaction, with a passkey too, has the priority the standard payment rule gives it for its tip and fee.",
 ["inputs"],
 "all kinds of transactions and tips, and all lists of wrapped calls up to and beyond the batch limit",
 "Tests check the weight or priority of one call; both are functions of every call list and tip.",
 ["pallets/frequency-tx-payment/src/lib.rs", "pallets/passkey/src/lib.rs"], [("weight annotations and priority", "pallets/frequency-tx-payment/src/lib.rs pay_with_capacity, pay_with_capacity_batch_all, ChargeFrqTransactionPayment::validate, tip"), ("passkey calls", "pallets/passkey/src/lib.rs proxy, ChargeTransactionPayment::validate")],
 bin="h_tx_payment", technique="property-based testing: differential against the standard payment rule, metamorphic over tips and call lists")

prop("P01", "A passkey transaction runs only what its account owner authorised, once",
 "A passkey transaction is admitted only if its wrapped call is a plain transfer of tokens, the account's own key signed the passkey's public key, the nonce is the account's current one and the account can pay; it then runs as that account and consumes the nonce. Anything else is refused by validation and by execution alike, without effect.",
 ["histories", "inputs"],
 "all payloads with altered keys, signatures, accounts, nonces and call kinds, and replays, over histories",
 "Tests alter one field at a time from one state; replay and agreement between validation and execution are over histories.",
 ["pallets/passkey/src/lib.rs", "pallets/passkey/src/types.rs"], [("unsigned validation", "pallets/passkey/src/lib.rs validate_unsigned, pre_dispatch, proxy")],
 bin="h_passkey", technique="stateful model-based property testing with payload mutation")

# ---------------------------------------------------------------- runtime
RT = "runtime/frequency/src/lib.rs"
prop("X01", "Forbidden and fee-free calls cannot be smuggled in through batching",
 "No batch that contains a nested batch, a capacity-paid call, a fee-free call, or a provider or schema creation call is admitted, wherever it stands among permitted calls, and batches of permitted calls are admitted. On the main network direct provider and schema creation are refused.",
 ["inputs", "configurations"],
 "all lists of calls of all kinds in every order and position, for every network configuration",
 "Tests try a few single-call batches; the rule is about every position in every list.",
 [RT], [("base call filter", RT + " BaseCallFilter")],
 bin="h_filters", technique="property-based testing against a reference filter")

prop("X02", "Proxy kinds allow exactly their documented calls and nest consistently",
 "A non-transfer proxy can never run a call that moves tokens, governance and staking proxies can run only calls of their area, and the unrestricted proxy can run everything. Whenever one kind is declared to include another, every call the included kind permits is permitted by the including one.",
 ["inputs"],
 "all proxy kinds and all call kinds",
 "No existing test covers it; inclusion is a relation over all calls.",
 [RT, "runtime/common/src/proxy.rs"], [("proxy filter", RT + " InstanceFilter for ProxyType")],
 bin="h_filters", technique="property-based testing: lattice laws over generated calls")

prop("U01", "Shared wire formats keep their content and refuse malformed input",
 "Every shared structure (responses, delegations, signed payloads, schema settings) has one binary form, its fields in order, and one text form, and reads back from each as the same value; bytes in text are hex or plain strings and survive unchanged, and bytes which are not a string, bad hex and unknown setting bits are refused rather than altered (an absent and an empty content identifier are the same). Different values are not taken for equal, data wrapped for signing is exactly the data between the two marks, the names of an account's keys and lock in node-local storage differ between accounts, an event keeps its phase, pallet, index and data, and arbitrary bytes never crash decoding.",
 ["inputs"],
 "all values of the shared structures and arbitrary bytes and texts",
 "Tests serialise a few values; round-trip is over all values.",
 ["common/primitives/src/utils.rs", "common/primitives/src/schema.rs", "common/primitives/src/msa.rs", "common/primitives/src/messages.rs", "common/primitives/src/handles.rs", "common/primitives/src/node.rs"],
 [("serialisation helpers", "common/primitives/src/utils.rs as_hex, as_hex_option, as_string, wrap_binary_data"), ("settings codec", "common/primitives/src/macros.rs impl_codec_bitflags")],
 bin="h_common", technique="property-based testing: round-trip and byte fuzzing")

prop("Q01", "Account, handle and schema queries answer exactly from the current state",
 "The node's answers about delegations name every asked delegator once and in order and say whether the provider was permitted at that block; the grants of one or of all providers are those on chain, ended no later than the delegation itself; the keys of an account are those recorded in the node's index, and a missing index or a damaged value is an error, not an empty answer. The handle of an account, the account of a handle (also of a look-alike spelling), the number of suggested suffixes, the schema of a number and the versions of a name match what was registered. No query changes state or crashes on any argument.",
 ["inputs", "histories"],
 "all states of delegations, keys, handles and schemas and all query arguments",
 "RPC tests mock the runtime; whether the answers are right for a given state is not tested.",
 ["pallets/msa/src/rpc/src/lib.rs", "pallets/handles/src/rpc/src/lib.rs", "pallets/schemas/src/rpc/src/lib.rs", RT],
 [("queries", "pallets/{msa,handles,schemas}/src/rpc/src/lib.rs"), ("runtime API", RT + " impl_runtime_apis"), ("grants", "pallets/msa/src/lib.rs get_granted_schemas_by_msa_id")],
 bin="h_queries", technique="property-based testing of the query handlers against a reference model of the state")

prop("Q02", "Missing-nonce and event queries report the pool and the block exactly",
 "For every content of the transaction pool, the missing nonces of an account are exactly the numbers from its next usable nonce up to its highest waiting transaction for which the pool has no transaction, in order and at most 1000, whatever other accounts do. The events of a block are reported once each, in order, with the transaction they belong to and their exact data.",
 ["inputs", "schedules"],
 "all pools of ready and waiting transactions of several accounts in every order; all blocks of transactions",
 "Tests cover a few hand-made pools; the gaps and orders are unbounded.",
 ["node/service/src/rpc/frequency_rpc.rs", "common/primitives/src/rpc.rs", RT],
 [("missing nonces", "node/service/src/rpc/frequency_rpc.rs get_missing_nonces"), ("events", RT + " AdditionalRuntimeApi, common/primitives/src/rpc.rs From<EventRecord>")],
 bin="h_queries", technique="property-based testing against a reference model of the pool and the block")

prop("V01", "Storage upgrades carry every record over once and touch nothing else",
 "Upgrading an older state keeps every message under its block, schema and index, names exactly the known schemas on the main network and none elsewhere, and replaces every time-release lock by a freeze of all scheduled tokens, which the owner can claim when due; locks, freezes, balances and records of others stay as they were. The recorded version is advanced, and upgrading again or upgrading a newer state changes nothing.",
 ["histories", "inputs"],
 "all old states of messages, schemas and release schedules, of every recorded version",
 "Each migration is tested on one hand-made state; upgrades run once on a state nobody has seen.",
 ["pallets/messages/src/migration/v2.rs", "pallets/schemas/src/migration/v4.rs", "pallets/time-release/src/migration/v2.rs"],
 [("messages", "pallets/messages/src/migration/v2.rs migrate_to_v2"), ("schemas", "pallets/schemas/src/migration/v4.rs migrate_to_v4"), ("time release", "pallets/time-release/src/migration/v2.rs MigrationToV2")],
 bin="h_upgrades", technique="property-based testing of state upgrades against an exact expected state")

prop("X03", "Privileged actions need the documented authority and a passed vote",
 "Each privileged action is open to exactly the authority documented for it: limits and schedules to root, providers to root or one councillor, schemas and their names to root or more than half of the council, democracy, treasury, scheduler, preimage and collator settings to their documented shares. Any other source is refused every call and leaves the state unchanged; ordinary calls need a signer. A proposed provider, schema or name comes into being exactly as proposed, for its proposer, only when the council closes its motion with enough approving votes (one for a provider, a strict majority for the others).",
 ["inputs", "histories"],
 "all calls of Frequency's pallets and all origins and shares of votes up to 13 seats; all histories of motions, votes and closings of several proposers",
 "Tests try one wrong origin per call; who may act is a rule over all calls, origins and vote counts.",
 [RT, "pallets/msa/src/lib.rs", "pallets/schemas/src/lib.rs", "pallets/capacity/src/lib.rs", "pallets/time-release/src/lib.rs", "pallets/passkey/src/lib.rs"],
 [("authorities", RT + " impl pallet_*::Config for Runtime, type *Origin"), ("proposals", RT + " CouncilProposalProvider, pallets/msa/src/lib.rs propose_to_be_provider, pallets/schemas/src/lib.rs propose_to_create_schema*"), ("origins", "pallets/*/src/lib.rs ensure_root, ensure_none, ensure_signed, *Origin::ensure_origin")],
 bin="h_authority", technique="property-based testing: exhaustive origin tables and generated motion histories against a reference model")

prop("Z01", "All modules' records agree with each other after any history",
 "After any history of calls of all modules, by transactions, batches, capacity payments, governance and calls made indirectly, the stored records fit together: every key, handle, delegation, provider, capacity account, message and page belongs to an account that exists, granted schemas exist, counters bound the identifiers in use, staked, frozen and held tokens are covered by the sums recorded, and no tokens come into being. A refused call or transaction leaves no trace.",
 ["histories"],
 "all histories of up to 120 calls of every kind by several people over blocks and epochs",
 "Tests exercise one module at a time with the others mocked; agreement between modules is over joint histories.",
 ["runtime/frequency/src/lib.rs", MS, "pallets/handles/src/lib.rs", ST, MG, CA, "pallets/time-release/src/lib.rs"],
 [("cross-module lookups", "runtime/frequency/src/lib.rs wiring of MsaLookup, HandleProvider, SchemaProvider, SchemaGrantValidator, TargetValidator")],
 bin="h_consistency", technique="stateful property testing of the joint runtime with cross-module invariants after every step")
prop("E01", "Events tell the whole story",
 "Someone who sees only the events of the chain knows its state: replaying them yields exactly the accounts, keys, providers, delegations, handles, schemas and their names, page hashes, stakes, capacity and release schedules that are stored. No event tells of something that did not happen, none is missing, and a refused call emits none.",
 ["histories"],
 "all histories of up to 120 calls of every kind by several people over blocks and epochs",
 "Tests check that single calls emit an expected event; that events suffice to reconstruct the state is over histories.",
 [MS, "pallets/handles/src/lib.rs", "pallets/schemas/src/lib.rs", ST, CA, "pallets/time-release/src/lib.rs"],
 [("events", "deposit_event calls in every pallet")],
 bin="h_consistency", technique="stateful property testing: a listener that sees only events against the stored state")
