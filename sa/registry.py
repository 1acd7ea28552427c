CHECKS = {
 'A01': ('verdict', 'run_gate', 'other', 'path-sensitive typestate analysis (abstract interpretation of the LLVM IR of the current tree) of the signature verification result'),
 'A02': ('verdict', 'run_hash', 'other', 'path-sensitive dataflow analysis of the hash comparisons in force at every store of the authentic status'),
 'A03': ('report', 'run_verdict', 'other', 'path-sensitive dataflow analysis of the derivation of the reported verdict, with a ghost bit for a failed NALU'),
 'A04': ('report', 'run_accumulate', 'other', 'relational (linear inequality) analysis of every update of the accumulated verdict'),
 'B01': ('errors', 'run_errors', 'other', 'path-sensitive error-propagation analysis'),
 'B03': ('nulls', 'run_args', 'other', 'abstract interpretation of every public function with each argument null, zero or outside its enumeration'),
 'D03': ('nulls', 'run_frozen', 'other', 'path-sensitive analysis of the setters with the marks of a started session in force'),
 'B02': ('nulls', 'run_oom', 'other', 'path-sensitive null-pointer analysis with every allocation failed in turn'),
 'E01': ('vendor', 'run_vendor', 'other', 'path-sensitive typestate analysis of certificates, keys and verification contexts in the vendor code and of the adoption of its result'),
 'A07': ('keys', 'run_keychange', 'other', 'path-sensitive dataflow analysis of the decoding of a public key and typestate analysis of the change flag'),
 'D01': ('threads', 'run_locks', 'other', 'lockset and typestate analysis of the data shared with the signing threads'),
 'A05': ('hashing', 'run_nalu', 'other', 'path-sensitive dataflow analysis of the data that reaches the hash functions, with concrete headers and symbolic sizes'),
 'A06': ('hashing', 'run_doc', 'other', 'path-sensitive dataflow analysis from the written SEI to the signing request'),
 'D02': ('queue_', 'run_queue', 'other', 'path-sensitive typestate and relational analysis of the buffers of hashes and signatures of the signing plugins'),
 'C02': ('seis', 'run_seis', 'other', 'abstract interpretation of every operation that changes the SEIs held, on enumerated shapes of their buffer'),
 'C03': ('roundtrip', 'run_roundtrip', 'other', 'symbolic layout of the data every encoder writes, and abstract interpretation of the decoder on data of exactly that layout'),
 'C01': ('bounds', 'run_bounds', 'other', 'abstract interpretation with a relational numerical domain of the parsers of untrusted data'),
 'B04': ('memory', 'run_memory', 'other', 'path-sensitive ownership and typestate analysis of allocated memory, plus an effect analysis of what each release of a struct releases'),
 'E02': ('handout', 'run_handout', 'other', 'value and escape analysis of what public operations hand out and keep'),
 'E03': ('versions', 'run_versions', 'other', 'path-sensitive relational analysis of the comparison of versions and of the verdict derived from it'),
 'D04': ('session', 'run_shared', 'other', 'effect analysis of writes to variables outside of sessions and of calls with process-wide state'),
 'D05': ('session', 'run_reset', 'other', 'abstract interpretation of the reset, its final values compared with those of a new session'),
}
