p("C04", "Parsing any NAL unit is memory safe",
  "Parsing any byte sequence handed over as a NAL unit, of any length, complete or in parts, reads only bytes of that NAL unit and never crashes or loops, also when it looks like a signed SEI with a broken size, UUID or escape sequence. What the parser reports as payload, TLV data and data to hash lies inside the NAL unit or its copy without escapes.",
  ["inputs"], "every byte sequence of every length, both codecs, in signing and validation",
  "Tests feed well formed NAL units made by their own generator; truncated and hostile ones come from the network.",
  [L + "signed_video_h26x_common.c", L + "legacy/legacy_h26x_common.c"], ["parse_nalu_info", "h264_get_payload_size", "remove_epb_from_sei_payload"])
p("C05", "NAL units are classified the same way whatever their start code and content",
  "Every NAL unit is recognised from its header bytes alone according to the H.264/H.265 syntax: picture data and parameter sets are hashed, the first slice of an I picture starts a GOP, other NAL units are left out, and only a user data SEI with the framework's UUID is a signed SEI. The result does not depend on whether a 3 byte, 4 byte or no start code is in front, nor on trailing zero bytes.",
  ["inputs"], "every header byte combination, every start code variant, both codecs",
  "Tests use one header byte per picture type; wrong classification of any other header value silently leaves data unsigned.",
  [L + "signed_video_h26x_common.c"], ["parse_nalu_info", "parse_h264_nalu_header", "parse_h265_nalu_header", "signed_video_is_golden_sei"])
p("C06", "A generated SEI is well formed and fits its memory",
  "Every SEI the signer makes has the codec's header, the payload type, a payload size that counts exactly the bytes that follow up to the stop byte, the UUID, the reserved byte and the TLV data, and is never larger than the memory allocated for it whatever the payload and however many escapes it needs. The hash that is signed covers exactly the SEI bytes up to the signature tag.",
  ["inputs", "configurations"], "every payload, every size, both codecs, with and without emulation prevention",
  "Size borders (255 byte runs) and worst case escapes depend on hash values the tests do not control.",
  [L + "signed_video_h26x_sign.c"], ["generate_sei_nalu", "add_payload", "get_sign_and_complete_sei_nalu", "complete_sei_nalu_and_add_to_prepend"])
p("C07", "The hash of a NAL unit covers all its data and its place in the GOP",
  "The hash recorded for a NAL unit is the digest of exactly its hashable bytes when it starts a GOP, and otherwise the digest of the reference hash of the GOP's first NAL unit followed by the hash of its own bytes; a NAL unit delivered in parts hashes like the same NAL unit in one piece. If hashing fails the failure is returned and nothing is counted as hashed.",
  ["inputs", "histories", "faults"], "every NAL unit content, every split in parts, every hash size, failure of any hash operation",
  "Both sides of the tests use the same code, so a hash that leaves out bytes still matches in the tests.",
  [L + "signed_video_h26x_common.c"], ["hash_and_add", "hash_and_add_for_auth", "hash_with_reference", "update_hash", "simply_hash"])
p("C08", "A GOP is reported authentic only when signature, hashes and order are verified",
  "A GOP is reported OK only if the signature of its SEI was verified with the public key and every received NAL unit of the GOP is covered by the signed GOP hash or the signed hash list in the right order after the previous GOP. If the signature is wrong or cannot be verified, any NAL unit was changed, added, reordered or the whole GOP is missing, the result is not OK (or, for the very first validation of a session, at most that a signature is present).",
  ["inputs", "histories", "faults"], "every content of the list of NAL units under validation, every signature outcome, every SEI content",
  "Tests make a handful of manipulations on short streams; an attacker chooses any combination of manipulated NAL units, SEIs and signatures.",
  [L + "signed_video_h26x_auth.c"], ["validate_authenticity", "verify_hashes_with_sei", "verify_hashes_without_sei", "verify_gop_hash", "verify_linked_hash", "prepare_for_link_and_gop_hash_verification", "prepare_for_validation", "h26x_nalu_list_get_stats"])
p("C09", "Hash list verification accepts only listed NAL units in order, counts missing",
  "When verified against a signed hash list, a NAL unit is marked authentic only if its hash is in the list after the previous match, everything else is marked not authentic, and listed hashes without a NAL unit are reported missing, no more and no fewer, at the place they are missing. The numbers of expected and received NAL units reported are those of the hash list and of the NAL units verified.",
  ["inputs", "histories"], "every hash list, every sequence of received NAL units",
  "Tests remove or modify one or two NAL units; combinations of loss, modification, duplication and reordering are not enumerable.",
  [L + "signed_video_h26x_auth.c"], ["verify_hashes_with_hash_list"])
p("C10", "The accumulated report never becomes better than what was validated",
  "The accumulated result of a session is always the worst result validated so far: once not OK it stays not OK, missing information or a failed public key stays visible, and a validation that validated nothing changes nothing. Counters of received and validated NAL units and timestamps only move forward, and a final report states pending NAL units exactly.",
  ["histories", "inputs"], "every sequence of validation results, with and without timestamps, every counter value",
  "A test sees a few sequences; the accumulated result is a fold over any history.",
  [L + "signed_video_authenticity.c"], ["update_accumulated_validation", "update_authenticity_report", "maybe_update_accumulated"])
p("C11", "Lost SEIs are detected from the GOP counter for every counter value",
  "Whenever the counter of a received SEI is ahead of the last validated GOP by one or more, also across the wraparound of the counter, the loss is detected once the session is in sync; a counter that is exactly the next, or lags behind, is not reported as a loss.",
  ["inputs", "histories"], "every pair of counter values including wraparound",
  "Counters near the wraparound take years of streaming to reach in a test.",
  [L + "signed_video_h26x_auth.c"], ["detect_lost_sei"])
p("C12", "The list of NAL units under validation stays consistent and owns its data",
  "Whatever is added, marked missing, copied or cleaned up, the list keeps every NAL unit in order with its status exactly once, its count is right, and nothing in it refers to memory of the caller once a call has returned. The bytes left to hash in a kept NAL unit are exactly those received.",
  ["histories", "inputs"], "every list content, every operation, any position",
  "Use after free and lost items depend on combinations of pending SEIs, missing items and late hashing which the tests do not produce.",
  [L + "signed_video_h26x_nalu_list.c"], ["h26x_nalu_list_append", "h26x_nalu_list_add_missing", "h26x_nalu_list_copy_last_item", "h26x_nalu_list_clean_up", "h26x_nalu_list_remove_missing_items"])
p("C13", "Validation always terminates and makes progress",
  "Adding a NAL unit for validation always returns: each round of validation after the first marks at least one pending NAL unit as done, so the number of rounds is bounded by the number of pending NAL units, whatever was lost, repeated or reordered. Validation is triggered exactly when a complete GOP with its SEI is available, or when it can be known that the SEI was lost.",
  ["histories", "inputs"], "every list of pending NAL units, every loss pattern",
  "Endless loops need specific combinations of several lost GOPs before a SEI, which tests do not enumerate.",
  [L + "signed_video_h26x_auth.c"], ["maybe_validate_gop", "has_pending_gop", "validation_is_feasible", "verify_hashes_without_sei"])
p("C14", "SEIs leave the signer once each, complete and in order",
  "Every SEI that was completed is handed out exactly once and in the order its GOP ended (newest first through the deprecated interface that prepends); an incomplete SEI is never handed out, the number of pending SEIs never exceeds the queue, a full queue is reported, and the size announced equals the size copied. Freeing or failing at any point leaves no SEI half removed.",
  ["histories", "faults"], "every queue state and every sequence of add, complete, get and failure",
  "The queue is only deep when signing is slow or the user does not fetch SEIs; tests keep it nearly empty.",
  [L + "signed_video_h26x_sign.c"], ["signed_video_get_sei", "add_payload_to_buffer", "complete_sei_nalu_and_add_to_prepend", "shift_sei_buffer_at_index", "remove_sei_from_buffer", "free_sei_data_buffer"])
p("C15", "The unthreaded signing plugin returns signatures in signing order",
  "Every hash handed to the unthreaded plugin gives exactly one signature made from exactly that hash, handed out once and in order; a signature that does not fit the caller's memory is not written past it. When signing fails or the plugin is full this is reported and other signatures are unaffected.",
  ["histories", "inputs", "faults"], "every sequence of sign and get calls, every size of hash and signature, failing allocation",
  "Tests sign and fetch in lockstep with one key size.",
  ["lib/plugins/unthreaded-signing/plugin.c"], ["sv_signing_plugin_sign", "sv_signing_plugin_get_signature", "unthreaded_openssl_sign_hash"])
p("C16", "The threaded signing plugin keeps hashes and signatures paired in order",
  "Under every interleaving of the signing thread and its users, each hash is signed at most once, a signature is returned to the session that asked for it in the order the hashes were given, a session that has stopped gets no more signatures, and no queue index leaves its memory. Shared state is touched only with its lock held.",
  ["schedules", "histories"], "every interleaving at lock granularity, every queue content, sessions coming and going",
  "Tests run a few schedules of one or two sessions.",
  ["lib/plugins/threaded-signing/plugin.c"], ["signing_worker_thread", "central_worker_thread", "sv_signing_plugin_sign", "sv_signing_plugin_get_signature"])
p("C17", "API calls validate parameters and settings are frozen once in use",
  "Every public function given a missing session or invalid value returns an error without changing the session, and values that are stored are deep copies, never a mix of old and new. Once signing has started the hash algorithm and the use of a golden SEI cannot be changed, and a public key for validation can only be set once and before validation has started.",
  ["inputs", "histories", "faults"], "every public function, every parameter combination, every point of a session",
  "Tests check a few invalid parameters at the start of a session.",
  [L + "signed_video_h26x_sign.c", L + "signed_video_h26x_common.c", L + "signed_video_h26x_auth.c"], ["signed_video_set_*", "struct_member_memory_allocated_and_copy"])
p("C18", "A change of public key during a stream is never accepted as OK",
  "When a SEI carries a public key different from the one used so far in the session, whether that one was set by the user or received, the change is flagged, that GOP is reported not OK and the accumulated result stays not OK. Repeating the same key is not flagged.",
  ["inputs", "histories"], "every pair of keys, every size, every order of keys set and received",
  "Tests use two fixed keys.",
  [L + "signed_video_tlv.c", L + "signed_video_h26x_auth.c"], ["decode_public_key", "validate_authenticity", "prepare_for_validation"])
p("C19", "Axis vendor key validation never upgrades a failed validation",
  "The public key is reported validated only if attestation report and certificate chain of the vendor data verify for this key and serial number; once it failed it stays failed, and missing or unusable data gives an error or not feasible, never validated. Decoding and storing vendor data is memory safe for every size.",
  ["inputs", "histories", "faults"], "every vendor tag content, every outcome of the certificate checks",
  "Tests have one real attestation and cannot make certificate checks fail at each step.",
  ["lib/vendors/axis-communications/sv_vendor_axis_communications.c"], ["get_axis_communications_supplemental_authenticity", "verify_axis_communications_public_key", "verify_and_parse_certificate_chain", "decode_axis_communications_handle"])
p("C20", "A newer signing version is always reported as version mismatch",
  "If the version found in the stream is newer than the validating library the result is a version mismatch, in the latest and accumulated result, and otherwise never; comparing versions is a total order on the three numbers and reports unusable strings as such.",
  ["inputs"], "every pair of versions",
  "Tests sign and validate with the same version.",
  [L + "signed_video_authenticity.c", L + "signed_video_h26x_common.c"], ["signed_video_compare_versions", "update_authenticity_report"])
p("C21", "A fetched authenticity report is an independent complete copy",
  "A report handed to the user equals the state of the session at that time in every field, shares no memory with the session or with other reports, and stays valid and unchanged until freed; when memory runs out no partial report is handed out.",
  ["inputs", "histories", "faults"], "every content of a report, failing allocations",
  "Tests look at a few fields and never let allocations fail.",
  [L + "signed_video_authenticity.c"], ["signed_video_get_authenticity_report", "transfer_*", "allocate_memory_and_copy_string"])
p("C22", "Crypto operations report success only when they succeeded",
  "A signature is reported verified only if the crypto library verified it, for the hash and key given; every failing crypto call and missing parameter is returned as failure, a signature never exceeds its memory, and hashing always uses the hash algorithm currently set, also right after it was changed or could not be set.",
  ["inputs", "faults", "histories"], "every outcome of every crypto library call, every parameter, every sequence of algorithm changes",
  "Tests cannot make the crypto library fail and hardly change algorithm during a session.",
  [L + "signed_video_openssl.c"], ["openssl_verify_hash", "openssl_sign_hash", "openssl_init_hash", "openssl_update_hash", "openssl_finalize_hash", "openssl_hash_data", "openssl_set_hash_algo", "openssl_set_hash_algo_by_encoded_oid"])
p("C23", "Streams signed by old versions are validated as strictly",
  "For streams signed with the old format a GOP is reported OK only if its signature verified and every NAL unit matched the signed hash or hash list, also for the NAL unit shared by two GOPs which needs both verifications; a failed first verification is never forgotten. Missing NAL units and lost SEIs are reported, and validation of a GOP always makes progress.",
  ["inputs", "histories"], "every list content, signature outcome and counter value",
  "There are only a handful of recorded old streams in the tests.",
  [L + "legacy/legacy_h26x_auth.c", L + "legacy/legacy_h26x_nalu_list.c"], ["legacy_validate_authenticity", "legacy_verify_hashes_with_hash_list", "legacy_verify_hashes_with_gop_hash", "legacy_verify_hashes_without_sei"])
p("C24", "Hash list capacity and GOP linking hold for every GOP length",
  "The hash list never outgrows its memory: when a GOP has more NAL units than it holds, individual hashes are dropped as a whole and the GOP hash still covers every NAL unit, with the number of NAL units counted. The link between consecutive GOPs is always the hash of the previous GOP's first NAL unit.",
  ["inputs", "histories"], "every GOP length, every hash size and list size",
  "Tests use GOPs of a few NAL units.",
  [L + "signed_video_h26x_common.c"], ["check_and_copy_hash_to_hash_list", "set_hash_list_size", "update_linked_hash", "update_num_nalus_in_gop_hash"])
p("C25", "A reset session behaves as a new one and keeps its configuration",
  "After a reset no verdict, counter, pending NAL unit, list item or flag of the old stream is left, while configured keys, product information, algorithm and vendor data are kept; a created session is empty and freeing releases it whatever its state.",
  ["histories"], "every state of a session at the time of reset",
  "Tests reset at one or two points.",
  [L + "signed_video_h26x_common.c"], ["signed_video_reset", "signed_video_create", "signed_video_free", "gop_info_reset", "validation_flags_init"])
