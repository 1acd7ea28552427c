prop('A01', 'A NAL unit is authentic only under a successfully verified signature',
 'Whenever the validation marks a NAL unit as authentic, the signature of the SEI it is judged by was verified in that same validation round, over the full received signature and the full hash of that SEI, and the verification reported success and nothing else. A verification that failed, that ended with an error, that was never made, or that belongs to an earlier round never makes a NAL unit authentic.',
 ['inputs', 'histories'], 'for every stream of NAL units, every SEI content and every order of arrival, in the current and in the legacy validation',
 'The tests sign with two well-formed keys and tamper in a handful of ways; a verification that returns an error, or a stale result, appears only for particular malformed signatures and histories.',
 [AUTH, LAUTH, OSSL], [('verified_signature_hash', AUTH + ': prepare_for_validation, verify_hashes_with_sei, verify_hashes_with_hash_list'), ('openssl_verify_hash', OSSL), ('legacy verified_signature_hash', LAUTH)],
 'path-sensitive typestate/dataflow analysis (abstract interpretation of LLVM IR) of the verification result',
 'Decided for all paths: every store of the authentic status requires the result cell to be exactly 1 on the path, the result can only become 1 as the return value of the signature verification, whose arguments are traced to the received signature, the hash and the key; stale results are excluded per round. Not decided: that OpenSSL verifies correctly.',
 state=[('verified_signature_hash', 'result of the signature verification of the SEI: 1 success, 0 mismatch, -1 error or none', 'gop_info')], observe=['validation string and per-NALU status of the authenticity report'])
prop('A02', 'A NAL unit is authentic only if its hash matches the signed hash in full',
 'A NAL unit other than a signed SEI is marked authentic only when a hash computed locally from the received data equals the signed hash over the full hash size: the hash of its GOP together with the link to the previous GOP, or its own hash in the signed hash list. If the link to the previous GOP does not match, the first NAL unit of that GOP is not authentic.',
 ['inputs', 'histories'], 'for every stream and every combination of hash size, authentication level and GOP order',
 'Tests use whole-byte changes that alter every byte of a hash; a comparison that ignores some bytes, or is skipped in one state, behaves identically on them.',
 [AUTH, LAUTH], [('verify_gop_hash, verify_linked_hash, verify_hashes_with_hash_list', AUTH), ('legacy hash list comparison', LAUTH)],
 'path-sensitive dataflow analysis of the comparisons in force at every authentic-status store',
 'Decided for all paths: which memcmp results are known equal, their operands (traced to struct fields) and their length (traced to hash_size). Not decided: collision resistance.',
 observe=['validation string and authenticity of the report'])
prop('A03', 'The verdict is OK only if nothing that took part failed',
 'A validation is reported as OK, with or without missing information, only if no NAL unit taking part in it is marked not authentic or in error, and the public key has not changed; in the current validation also only if the signature verification succeeded. Every NAL unit taking part is considered.',
 ['inputs', 'histories'], 'for every combination of per-NALU results, signature result, key change and history of earlier validations',
 'Tests sample streams in which all NAL units of a GOP fail or none; the derivation of the verdict from mixed results, errors and key changes is a function of a combination they do not enumerate.',
 [AUTH, LAUTH, 'lib/src/signed_video_h26x_nalu_list.c', 'lib/src/legacy/legacy_h26x_nalu_list.c'], [('validate_authenticity', AUTH), ('legacy_validate_authenticity', LAUTH), ('h26x_nalu_list_get_stats', 'lib/src/signed_video_h26x_nalu_list.c')],
 'path-sensitive dataflow analysis of the derivation of the verdict, with ghost state for failed NAL units, plus a traversal analysis of the statistics',
 'Decided for all paths and all lists: at every store that can make the latest verdict OK. The legacy validation does not consult the signature result itself at this point (it marks NAL units by it), so that part is not claimed for it.',
 observe=['authenticity of latest_validation'])
prop('A04', 'Accumulated verdict never improves and forgets nothing',
 'Once something has been validated, the accumulated verdict of a session only stays or gets worse and is never better than any delivered verdict. A detected change of the public key and a failed validation of the public key stay recorded until the session is reset, and every delivered validation result has been accumulated.',
 ['histories'], 'for every sequence of validation results within a session',
 'Tests check accumulated values after a few fixed sequences; the property ranges over all sequences of verdicts and flags.',
 ['lib/src/signed_video_authenticity.c', AUTH, LAUTH], [('update_accumulated_validation', 'lib/src/signed_video_authenticity.c'), ('signed_video_add_nalu_and_authenticate', AUTH), ('legacy_sv_add_nalu_and_authenticate', LAUTH)],
 'relational (linear inequality) abstract interpretation of every update of the accumulated verdict',
 'Decided for all pairs of latest and accumulated values: one step never improves the verdict and keeps the flags, hence by induction no sequence does; every successful delivery passes an update. Stores of initial values at creation and reset are a new start.',
 observe=['accumulated_validation of the authenticity report'])
prop('B01', 'A failed step is never reported as success',
 'An operation that returns a status code reports success only if none of its steps failed, where a step is an internal operation with a status code, an error delivered by the signing plugin, a memory allocation, or a call to the crypto library that hashes, signs, sets up a verification or handles a key. Exempt are the outcome of the vendor specific verification, which becomes a result instead of an error, looking ahead for optional data in a SEI not yet validated, and the descriptive strings and missing-NALU placeholders of the report.',
 ['inputs', 'faults'], 'for every operation and every step of it that can fail, alone or after other steps',
 'The failures (memory, crypto library, plugin) do not occur in a test run; each step of each operation would have to be failed in turn.',
 ['lib/src', 'lib/plugins', 'lib/vendors'], [('SV_THROW / SV_CATCH error handling', 'lib/src/signed_video_defines.h'), ('hash_and_add, generate_sei_nalu', 'lib/src/signed_video_h26x_common.c, signed_video_h26x_sign.c'), ('tlv_decode', 'lib/src/signed_video_tlv.c')],
 'path-sensitive error-propagation (taint of a failed step) abstract interpretation of every status-returning function',
 'Decided for all paths of every function with a status as result: each step is forked into success and failure, and no path with a failed step may end in success. Assumed: failure values of the crypto library as documented.',
 observe=['return code of the public API'])
prop('B03', 'Invalid arguments are rejected without effect',
 'No public function dereferences a null argument. A call without a session, without required data (null, or of size zero), or with an enumeration value outside its range is rejected, with an error code where the function has one, and changes neither the session nor anything else the caller can see.',
 ['inputs'], 'for every public function, every pointer, size or enumeration argument of it, and every state of the session',
 'Tests call some functions with some null arguments in a fresh session; the guarantee is for every argument, also in states where a previous call has left data behind.',
 ['lib/src/includes', 'lib/plugins', 'lib/vendors'], [('public functions', 'lib/src/includes/*.h'), ('sv_signing_plugin_get_signature, sv_signing_plugin_init', 'lib/plugins/threaded-signing/plugin.c')],
 'abstract interpretation of every public function with each argument null, zero or outside its enumeration, from an arbitrary session',
 'Decided per public function declared in the installed headers and per argument, in both signing plugins, from an unconstrained session state; the result must be a rejection and no store, release or call with side effects may precede it.',
 observe=['return code of the public API', 'session state'])
prop('D03', 'Session parameters are frozen once the session has started',
 'Once a NAL unit has been accepted for signing, the hash algorithm and the use of golden SEIs can no longer be changed; once one has been accepted for validation, no public key can be set; only a new session or a reset lifts this. A public key, attestation or certificate chain that has been set is never replaced by setting it again.',
 ['histories'], 'for every sequence of calls of the public API on one session',
 'A test tries a setter at one or two points of one stream; the guarantee is for any point of any history, including NAL units that are not frames, NAL units in parts, golden SEIs and the end of the stream.',
 [SIGN, AUTH, 'lib/vendors/axis-communications'], [('signed_video_set_hash_algo, signed_video_set_using_golden_sei', SIGN), ('prepare_for_nalus_to_prepend', SIGN), ('signed_video_set_public_key', AUTH), ('sv_vendor_axis_communications_set_attestation_report', 'lib/vendors/axis-communications/sv_vendor_axis_communications.c')],
 'path-sensitive analysis: flags raised on every successful path of the NAL unit functions and lowered only by create or reset; the setters with these flags in force',
 'Decided for all paths: which flags of the session are raised by every accepted NAL unit, that only creation and reset may lower them, and that the setters, with these flags raised, are rejected without any effect. Induction over the history gives the property.',
 observe=['return code of the setters', 'session state'])
prop('B02', 'A failed allocation never leads to an access of missing memory',
 'If memory cannot be allocated, the operation in which this happens ends without reading, writing or handing to a library function the memory it did not get, whichever of its allocations failed. Where the creation of a session or report succeeds although an allocation failed, no later operation relies on the missing part.',
 ['faults'], 'for every public operation and every allocation reached from it, failing alone or together with others',
 'Allocations do not fail in a test run; each allocation of each operation would have to be failed in turn, in each state of the session.',
 ['lib/src', 'lib/plugins', 'lib/vendors'], [('allocations', 'lib/src/*.c, lib/plugins, lib/vendors'), ('signed_video_create', COMMON)],
 'path-sensitive null-pointer abstract interpretation with every allocation forked into success and failure',
 'Decided within the operation in which the allocation fails, and for the members of a session whose missing allocation its creation tolerates. Not decided: a null pointer that a failed operation leaves behind in an item of the NAL unit list.',
 observe=['crash of the process, return code'])
prop('E01', 'A public key is valid only by a verified attestation of that very key',
 'The public key of a stream signed by an Axis device is reported as validated only if the certificate chain in the stream has been verified against the built-in Axis root and an attestation of exactly the public key in use, for that chip and serial number, carries a valid signature by the certificate of the chain. A failed verification, or a change of the key or of the attestation data, is never answered with an earlier success.',
 ['inputs', 'histories'], 'for every certificate chain, attestation, public key and order in which they are received or changed',
 'The tests contain one genuine attestation, which is good; chains and attestations that fail in one particular respect cannot be made without the vendor\'s private keys.',
 [VEND, AUTH, LAUTH], [('verify_axis_communications_public_key, verify_certificate_chain, deserialize_attestation', VEND), ('get_axis_communications_supplemental_authenticity', VEND), ('adoption of the result', AUTH + ', ' + LAUTH)],
 'path-sensitive typestate analysis of certificates, keys and verification contexts, and of the adoption of the vendor result',
 'Decided for all paths: every store of the OK result is dominated by a successful chain verification with the built-in root as only trust anchor, a successful signature verification initialised with the key of the verified certificate, over data into which the key in use and chip id were copied, and a serial number match. Not decided: that OpenSSL verifies correctly.',
 observe=['public_key_validation of the authenticity report', 'vendor supplemental authenticity'])
prop('A07', 'A changed public key never goes unnoticed',
 'If a SEI carries another public key than the one in use, the change is flagged in the validation of that SEI and recorded for the session, even if the rest of the SEI turns out to be invalid, and the flag is not lowered before it has been taken into account. The key received last is the one signatures are verified with and later keys are compared with; the key in use is forgotten only if a signature was found to be wrong under it.',
 ['inputs', 'histories'], 'for every sequence of keys, of equal or different size, received in valid or partly invalid SEIs, in the current and in the legacy validation',
 'A test changes the key once, between two valid streams with keys that differ from the start; the guarantee is for any two keys and any state in which the change arrives.',
 ['lib/src/signed_video_tlv.c', 'lib/src/legacy/legacy_tlv.c', AUTH, LAUTH, OSSL], [('decode_public_key', 'lib/src/signed_video_tlv.c'), ('legacy_decode_public_key', 'lib/src/legacy/legacy_tlv.c'), ('maybe_validate_gop, prepare_for_validation', AUTH), ('openssl_public_key_malloc', OSSL)],
 'path-sensitive abstract interpretation of the decoders of a public key with ghost state for the key in use, plus a typestate analysis of the flag',
 'Decided for all paths: of every decoder of a public key, with and without a key in use and with and without a change already flagged; and of the functions that lower the flag or forget the key. Assumed: a key never consists of zero bytes only.',
 observe=['public_key_has_changed in latest_validation and accumulated_validation'])
prop('D01', 'Data shared with a signing thread is used only under its lock',
 'In the threaded signing plugin, everything shared between the calling threads and a signing thread is read and written only while the lock that protects it is held, and the lock is released on every way out of every operation and never taken twice. A thread that waits re-checks what it waits for and is woken by every change of it; no operation signs or joins a thread while holding the lock; and nothing is released or replaced while a signing thread may still use it.',
 ['schedules'], 'for every interleaving of calls from any number of sessions with the local and the central signing thread',
 'A test run exercises one schedule of the threads; a missing lock, a lost wake-up or a too early release shows only under particular interleavings.',
 ['lib/plugins/threaded-signing/plugin.c'], [('sign_hash, get_signature', 'lib/plugins/threaded-signing/plugin.c'), ('local_worker_thread, central_worker_thread', 'lib/plugins/threaded-signing/plugin.c'), ('teardown of a thread', 'lib/plugins/threaded-signing/plugin.c')],
 'lock-set and typestate abstract interpretation of every entry point and thread function of the plugin',
 'Decided for all paths of every public function and thread function of the plugin. Not decided: deadlocks with locks outside the plugin, and fairness of the scheduler.',
 observe=['data races, deadlocks, lost signatures, use after free'])
prop('A05', 'The hash of a NAL unit covers all of it',
 'The hash computed for a NAL unit, when signing and when validating, is the hash of all of its bytes from the NAL unit header to the last byte: nothing but the start code and the zero bytes that trail a complete NAL unit is left out, and of a signed SEI being validated nothing before its signature. A NAL unit handed over in several parts is hashed part after part, and every frame of a GOP enters the hash of the GOP.',
 ['inputs', 'histories'], 'for every NAL unit of every codec, type and size, complete or in parts, in the signing and in the validation',
 'The tests change whole test NAL units of a dozen bytes; bytes left out from the hash show only if a change is made to exactly these bytes.',
 [COMMON, SIGN, AUTH], [('parse_nalu_info', COMMON), ('hash_and_add, update_hash, simply_hash, hash_with_reference, update_gop_hash', COMMON), ('signed_video_add_nalu_part_for_signing_with_timestamp', SIGN)],
 'path-sensitive dataflow analysis of the byte ranges that reach the hash functions',
 'Decided for all sizes (symbolic) and for every enumerated combination of header bytes, start code and trailing bytes, from each public entry: the ranges handed to the hash functions cover the NAL unit, with offsets and lengths compared as linear expressions. Assumed: the hash functions of the crypto library hash what they are given.',
 observe=['validation string of the report after any change of a stream'])
prop('A06', 'The signature covers the whole SEI up to itself',
 'What is signed is the hash of the very SEI that is delivered, from its NAL unit header up to the signature: nothing that the SEI states about the stream is left out and nothing of it is changed after it has been hashed. Every SEI that the library generates is either handed over for signing or the failure is reported.',
 ['inputs', 'histories'], 'for every content of a SEI, authentication level and kind of SEI, including golden SEIs and the end of the stream',
 'The tests tamper with a few positions of a SEI; metadata that is not covered shows only if exactly these bytes are forged.',
 [SIGN, COMMON], [('generate_sei_nalu', SIGN), ('signed_video_generate_golden_sei, signed_video_set_end_of_stream', SIGN), ('hash_and_add', COMMON)],
 'path-sensitive dataflow analysis from the bytes written to the SEI, over its hash, to the signing request',
 'Decided for all paths of every public operation that generates a SEI: the object and the range hashed are those of the SEI written, all writes precede the hash, and the memory handed to the signing plugin holds that hash in its full size. Not decided: the order in which an application inserts the SEIs.',
 observe=['result of the signature verification of a tampered SEI'])
prop('D02', 'A signature reaches only the session whose hash it signs',
 'A signing plugin delivers a signature only to the session that handed over the hash it signs, in full, once, and in the order of the requests; a failed signing is delivered as an error and never as a signature. A session that has ended leaves nothing behind that another session could receive or be blocked by, and the buffers never overrun or underrun.',
 ['histories', 'schedules', 'inputs'], 'for every order of requests, deliveries and ends of any number of sessions, with the unthreaded plugin and the local and the central signing thread',
 'The tests sign a few hashes in a fixed order; a mixed up, lost or leftover signature shows only if sessions end or buffers fill up at particular moments.',
 ['lib/plugins/threaded-signing/plugin.c', 'lib/plugins/unthreaded-signing/plugin.c'], [('sign_hash, get_signature', 'lib/plugins/threaded-signing/plugin.c'), ('local_worker_thread, central_worker_thread', 'lib/plugins/threaded-signing/plugin.c'), ('buffer_reset', 'lib/plugins/threaded-signing/plugin.c'), ('unthreaded_openssl_sign_hash, unthreaded_openssl_get_signature', 'lib/plugins/unthreaded-signing/plugin.c')],
 'abstract interpretation of every buffer operation with ghost state for the content and the order of the buffers (invariant preserved by each operation)',
 'Decided for all paths and for all buffer levels (symbolic): every operation under the lock preserves the buffer invariant, delivers the head of the queue only to its owner and copies it in full. Not decided: that the identifiers given to sessions are unique, and that a signing thread makes progress.',
 observe=['signatures delivered to a session', 'error code of get_signature'])
prop('C01', 'Malformed data never makes the library access memory outside it',
 'Whatever the bytes and the number of bytes of a NAL Unit, and whatever a SEI in it states about its own sizes, parsing the NAL Unit, walking through and searching its tags and decoding each tag only reads within the data given and only writes within the memory it is written to. A size, index or string that the data states is never used beyond what is present, and sizes that are stored always describe the memory they belong to.',
 ['inputs'], 'for every content and every size of the data, tag by tag',
 'The streams validated come from an adversary; the tests decode what the library itself has written, so a missing comparison shows only for the malformed input nobody wrote a test for.',
 ['lib/src/signed_video_tlv.c', 'lib/src/signed_video_h26x_common.c', 'lib/src/legacy/legacy_tlv.c', 'lib/src/legacy/legacy_h26x_common.c', 'lib/src/signed_video_openssl.c', 'lib/vendors/axis-communications/sv_vendor_axis_communications.c'],
 [('decode_general, decode_signature, decode_hash_list, ...', 'lib/src/signed_video_tlv.c'), ('tlv_decode, tlv_find_tag, tlv_find_and_decode_optional_tags, decode_tlv_header', 'lib/src/signed_video_tlv.c'), ('parse_nalu_info, remove_epb_from_sei_payload, h264_get_payload_size', 'lib/src/signed_video_h26x_common.c'), ('decode_axis_communications_handle', 'lib/vendors/axis-communications/sv_vendor_axis_communications.c')],
 'abstract interpretation with symbolic sizes and linear relations between them; every access to memory of known size is an obligation to prove',
 'Every access of the tag decoders, the TLV walkers and the tag search to the data, to memory allocated on the way and to arrays is proved in bounds, for data of any content and size. For the NAL Unit parsers an obligation whose terms stand for several paths at once is left undecided and listed in the evidence rather than reported: these are the copy without emulation prevention bytes and the position of the tags in it. Strings are decided where they lie in the data; copies of them are not.',
 observe=['memory accesses', 'return codes'])

prop('C02', 'Every SEI is delivered once, in full and in order',
 'Whatever sequence of signing operations the user performs, and whenever the signatures arrive, every SEI produced is delivered to the user exactly once, in full and with its own size, oldest first with signed_video_get_sei(), unless it never got a signature. A SEI counts as completed exactly when its signature has been added to it; asking for the size delivers nothing; the number of pending SEIs told is the number still to come; what is kept for a SEI (position of the signature, state of the emulation prevention, size) stays with it however many others are pending.',
 ['inputs', 'schedules', 'histories'], 'for every operation of the signing side and every moment at which signatures arrive, with any mixture of completed and unsigned SEIs pending',
 'The tests fetch a SEI as soon as it is ready, so that hardly more than one is ever pending; mixing up, cutting off or forgetting one of several pending SEIs shows only when signatures are delayed or SEIs cannot be placed yet.',
 [SIGN], [('signed_video_get_sei, get_latest_sei, signed_video_get_nalu_to_prepend', SIGN), ('add_payload_to_buffer, complete_sei_nalu_and_add_to_prepend, shift_sei_buffer_at_index', SIGN)],
 'abstract interpretation of every operation that changes the SEIs held, on enumerated shapes of their buffer',
 'Decided for every path through each public operation, from buffers with up to four pending SEIs in every mixture of completed and not, and a full one; at most one signature arrives per operation. The content of the SEI written when completing is not part of it (A06, C03).',
 observe=['SEIs fetched by the user', 'number of pending SEIs'])

prop('C03', 'What is written to a SEI is what is read back from it',
 'Every value that the signing side writes to a SEI (counters, version, timestamp, hashes, public key, product information, user data, hash algorithm, attestation, certificates and signature) is read back by the validating side unchanged and in full, for every value and size it can have; a product string that does not fit is cut to what fits and stays a string. Every byte goes through the emulation prevention of the session, which inserts its byte exactly where the reader removes one, and the size announced for the data is the size written.',
 ['inputs'], 'for every content and size of every tag, with and without emulation prevention',
 'The tests write a few fixed values; a byte lost, a bit masked or a size truncated shows only for the values that need it, for example a string of 255 characters or a zero at the wrong place.',
 ['lib/src/signed_video_tlv.c', 'lib/vendors/axis-communications/sv_vendor_axis_communications.c'], [('encode_general, encode_signature, ... and decode_general, decode_signature, ...', 'lib/src/signed_video_tlv.c'), ('write_byte, read_byte, write_byte_many', 'lib/src/signed_video_tlv.c'), ('tlv_list_encode_or_get_size, tlv_decode, tlv_find_and_decode_optional_tags', 'lib/src/signed_video_tlv.c'), ('encode_axis_communications_handle, decode_axis_communications_handle', 'lib/vendors/axis-communications/sv_vendor_axis_communications.c')],
 'abstract interpretation of every encoder, which yields the symbolic layout of the data, followed by that of the decoder on data of exactly this layout',
 'Decided for all values and sizes (symbolic) tag by tag: the layout written is contiguous, of the size announced, and the decoder, run on it, ends with each member equal to the one it was written from. Product strings are varied one at a time. Not decided: the framing of the SEI around the tags, the cryptographic library and the vendor validation, whose failures are taken as legitimate.',
 observe=['authenticity report', 'decoded SEI'])

prop('B04', 'Memory is released exactly once, and never lost or used afterwards',
 'Whatever memory and cryptographic object the library obtains is either released or still kept somewhere when an operation ends, also when the operation fails half-way or a value is replaced by another; when a session, report, plugin session or vendor handle is released, everything it owns is released with it. Nothing is released twice, used after it has been released, or left behind as a reference to released memory in a session that goes on.',
 ['inputs', 'faults', 'histories'], 'for every path through every function that obtains or releases memory, with every allocation and every OpenSSL constructor failing in turn',
 'Leaks and double releases arise on error paths and replacement sequences (a second key, a larger value, an unusable certificate) that no test walks, and the tests do not observe memory at all.',
 [COMMON, SIGN, AUTH, OSSL, 'lib/src/signed_video_tlv.c', 'lib/src/signed_video_authenticity.c', 'lib/src/signed_video_h26x_nalu_list.c', 'lib/src/legacy/legacy_h26x_common.c', 'lib/plugins/threaded-signing/plugin.c', 'lib/plugins/unthreaded-signing/plugin.c', 'lib/vendors/axis-communications/sv_vendor_axis_communications.c'],
 [('signed_video_create, signed_video_free, signed_video_reset', COMMON), ('openssl_private_key_malloc, openssl_public_key_malloc, openssl_free_handle', OSSL), ('signed_video_authenticity_report_free', 'lib/src/signed_video_authenticity.c'), ('verify_and_parse_certificate_chain', 'lib/vendors/axis-communications/sv_vendor_axis_communications.c')],
 'path-sensitive ownership and typestate analysis of allocated memory, plus an interprocedural effect analysis of what each release of a struct releases',
 'Decided for all paths of the functions analysed (calls followed to depth three): loss on failing paths, loss by overwriting a member, release twice, use after release, and references left in the session at the end of a public operation. What a struct owns is what the library stores new memory in or releases elsewhere; that its release covers all of it is decided without regard to conditions. Not decided: elements of arrays and items of lists individually, and ownership handed over to functions that are not followed.',
 observe=['memory in use after an operation', 'memory errors'])

prop('E02', 'Reports are complete and owned by the caller; no caller memory is kept',
 'A report handed out states exactly what the session knows at that time: every member of it equals the one of the session, and its strings are copies of their own, so that it stays valid and unchanged whatever becomes of the session. Product strings set by the user are taken over each into the member of its name. When an operation ends, the session refers to no memory of the caller, in particular not to the data of the NAL units added, and the caller has no reference to memory the session goes on using.',
 ['inputs', 'histories'], 'for every public operation, every content of the report and every later use of session and report',
 'The tests compare a few members of a report right after it has been obtained and keep their own buffers alive; a member left out, mixed up or shared shows only for values nobody compares, or after the session or the buffer is gone.',
 ['lib/src/signed_video_authenticity.c', COMMON, SIGN, 'lib/src/signed_video_h26x_nalu_list.c', 'lib/vendors/axis-communications/sv_vendor_axis_communications.c', 'lib/plugins/threaded-signing/plugin.c'],
 [('signed_video_get_authenticity_report, transfer_authenticity', 'lib/src/signed_video_authenticity.c'), ('h26x_nalu_list_copy_last_item', 'lib/src/signed_video_h26x_nalu_list.c'), ('copy_nalu_except_pointers', COMMON), ('signed_video_set_product_info, signed_video_get_nalu_to_prepend', SIGN)],
 'value and escape analysis (abstract interpretation) of every public operation',
 'Decided for all paths: equality of every member of the report handed out with that of the session, origin of the content of every string, and the references between session and caller at the end of every public operation that could be followed (the others are noted in the evidence). Not decided: strings copied byte by byte, and references kept in items of lists other than by the function that takes over a NAL unit.',
 observe=['members of the authenticity report', 'memory of the caller after an operation'])

prop('E03', 'A newer signing side is never validated as OK; versions order correctly',
 'Versions are compared by major, then minor, then patch number, and a string that is no version is neither equal, newer nor older. If the version of the signing side is newer than the version of the library that validates, the verdict of the validation is a version mismatch, in the current and in the legacy validation, whatever the outcome of the validation was otherwise; no verdict is accumulated without the versions having been compared.',
 ['inputs'], 'for every pair of versions and every outcome of the validation',
 'The tests compare a handful of versions, and the library only ever validates streams of its own or older versions.',
 [COMMON, 'lib/src/signed_video_authenticity.c', LAUTH], [('signed_video_compare_versions, version_str_to_bytes', COMMON), ('update_authenticity_report', 'lib/src/signed_video_authenticity.c'), ('legacy_update_authenticity_report', LAUTH)],
 'path-sensitive relational analysis with the version numbers as symbols',
 'Decided for all version numbers up to 65535: the relation between the numbers read and the result returned, and the verdict on every path on which the signing side was found to be newer. Not decided: how sscanf() reads a string, and a comparison by other means than linear arithmetic.',
 observe=['result of signed_video_compare_versions', 'verdict in the authenticity report'])

prop('D04', 'Sessions share nothing with each other',
 'What happens in one session never influences another one, even if they are used at the same time in different threads: the library keeps and changes no data outside of the sessions, handles and arguments given, except for the central signing thread of the threaded plugin, which is protected by its lock, and it calls no library function that keeps or changes state of the whole process.',
 ['schedules', 'histories'], 'for every number of sessions and every interleaving of their operations',
 'The tests use one session at a time in one thread; shared data shows only when operations of two sessions interleave.',
 [COMMON, SIGN, AUTH, OSSL, 'lib/src/signed_video_tlv.c', 'lib/plugins/threaded-signing/plugin.c', 'lib/vendors/axis-communications/sv_vendor_axis_communications.c'],
 [('all functions of the library', 'lib'), ('central, id_list, last_added_id', 'lib/plugins/threaded-signing/plugin.c')],
 'effect analysis of every write and of every call in all configurations',
 'Decided for all functions of the four configurations: no store, and no call that may store, reaches a variable outside of sessions, but in the threaded plugin, where the use of the lock is decided by D01. Not decided: state inside of the libraries used, other than that of the functions known to keep it.',
 observe=['results of concurrent sessions'])

prop('D05', 'A reset leaves nothing of the former stream behind',
 'After a successful reset the session judges the next stream like a new one: the latest and the accumulated verdict with all their counters, flags and timestamps, the flags of the validation, the state of the GOP, the result of the signature verification, the hashes collected and the linked hashes, the pending NAL units and the marks of a started signing are those of a new session, also in the legacy validation.',
 ['histories'], 'for every history of the session before the reset',
 'The tests reset at a few points of well-formed streams and look at a few members afterwards; what is left behind shows only if the former stream set it.',
 [COMMON, 'lib/src/signed_video_authenticity.c', 'lib/src/legacy/legacy_h26x_common.c'], [('signed_video_reset, gop_info_reset, gop_state_reset, validation_flags_init', COMMON), ('latest_validation_init, accumulated_validation_init', 'lib/src/signed_video_authenticity.c'), ('legacy_sv_reset', 'lib/src/legacy/legacy_h26x_common.c')],
 'abstract interpretation of the reset of a session with unknown content; its final values are compared with those of a new session',
 'Decided for all contents of the session and all paths on which the reset succeeds, for the members named; that hashes are cleared is decided as: on some path they are. Not decided: keys, settings and SEIs not fetched yet, which a reset keeps.',
 observe=['authenticity report after a reset', 'SEIs after a reset'])
