#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are easy to edit)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","Parsing arbitrary bytes never panics",
 "For every byte string, parsing a file (vehicle-unit download, driver card or any other card dump) either returns a message or returns an error. It never panics: no out-of-range index or slice, no failed type assertion, no nil dereference, no division by zero, no explicit panic and no process exit.",
 ["inputs"],"every byte string handed to file parsing, including truncated, oversized-count and adversarial ones",
 "The unit tests parse a few dozen well-formed records and some short buffers per element; the vehicle-unit parser and the top-level entry have no effective tests at all, so an offset that runs past the end is only met on inputs nobody sampled.",
 ["unmarshal.go","internal/card","internal/vu","internal/dd","internal/security"],
 [("length checks before every slice/index of the input","internal/dd, internal/card, internal/vu unmarshal functions"),("size scan of a transfer before it is cut out of the input","internal/vu/raw_vehicle_unit_file.go")],
 ["the call to file parsing"])
p("P02","Parsing always terminates",
 "For every byte string, parsing finishes: each loop that walks the input consumes at least one byte or one counted record per round or otherwise provably runs out, and the parser does not recurse on input-controlled depth. In particular a cyclic or self-referencing record chain in the input cannot make parsing loop forever.",
 ["inputs"],"every byte string; every loop and every recursive cycle reachable from file parsing",
 "Non-termination appears only for specific length/pointer fields (zero-length records, cyclic daily-record pointers); a finite test set that terminates says nothing about the others.",
 ["internal/card/activity.go","internal/card/rawcardfile.go","internal/vu","internal/dd"],
 [("offset advances, counted loops, visited/limit guard on the daily-record chain","internal/card/activity.go, internal/vu/raw_vehicle_unit_file.go")],
 ["the call to file parsing"])
p("P03","Serialising any message never panics",
 "For every file message, however it was built (missing sub-messages, empty or nil lists, retained raw bytes of the wrong length, out-of-range numbers), serialising it either returns bytes or returns an error and never panics.",
 ["inputs"],"every message value of the file schema, not only ones obtained by parsing",
 "Tests serialise messages the parser itself produced; partially filled messages and wrong-length raw bytes are legal API inputs that no test builds systematically.",
 ["marshal.go","internal/card","internal/dd","internal/vu"],
 [("length checks on retained raw bytes before painting, nil-safe getters","Append*/append* functions in internal/dd and internal/card")],
 ["the call to file serialisation"])
p("P04","Parsed messages own their bytes; the input is never modified",
 "Parsing never writes to the caller's byte slice. Every byte field of the returned message is backed by memory that the parser owns exclusively: it neither shares memory with the caller's slice nor with a scratch or scanner buffer that is refilled while later records are read, so changing the input afterwards, or parsing further records, can never change an already parsed value.",
 ["inputs","histories"],"every input, and every later history of writes to the input buffer or reuse of parser-internal buffers",
 "Aliasing shows only when the caller reuses its buffer or when a record list outgrows the scanner's 4 KiB buffer; tests keep inputs constant and small.",
 ["unmarshal.go","internal/card","internal/vu","internal/dd"],
 [("cloning of retained bytes","SetRawData/SetSignature/SetValue and other bytes-valued setters on the parse path")],
 ["byte fields of the parsed message after the caller overwrites its buffer"])
p("P05","Serialising and verifying leave the message unchanged",
 "Serialising a file never modifies the message it is given: neither a field nor the contents of any byte slice reachable from it. Verifying a file modifies nothing except, in the certificates it checks, the signature-validity flag and the fields that RSA signature recovery reveals of the same certificate (holder and authority reference, expiry, modulus, exponent).",
 ["inputs","histories"],"every message, every serialisation or verification call, including several on one message",
 "A write through a byte slice shared with the message (painting over retained raw bytes in place, append into spare capacity) corrupts the message only for particular lengths/capacities and is visible only to a second use of it, which tests do not make.",
 ["marshal.go","verify.go","internal/card","internal/dd","internal/security"],
 [("raw-data painting on a fresh canvas copy","internal/dd/*.go Append functions"),("only the signature-valid flag is set by verification","internal/security")],
 ["the message before and after the call"])
p("P06","Parsing and serialising are pure, deterministic functions",
 "The result of parsing, serialising or anonymising depends only on the argument: these operations perform no file, network or process I/O, consult no clock, random source, environment, or local time zone, keep no state between calls, and do not depend on map iteration order or goroutine scheduling. They are therefore safe to call concurrently on different arguments.",
 ["inputs","schedules","configurations","histories"],"every input, every environment (time zone, locale, clock), every earlier call and every interleaving of concurrent calls",
 "A cache in a package variable, a local-time conversion or a map range gives the same answer in the test process; only another time zone, call history, or schedule exposes it.",
 ["unmarshal.go","marshal.go","internal/card","internal/vu","internal/dd"],
 [("no package-level mutable state; UTC-only time handling","whole parse/serialise path")],
 ["results under different TZ / call orders / concurrent callers"])
p("P07","No failure is swallowed",
 "When a step of parsing, serialising, verifying or certificate lookup fails, the failure reaches the caller: the operation's error is returned (or, where documented, the undecodable record is kept verbatim and marked invalid), and it is never ignored, replaced by a default value, or turned into a shorter result that looks complete. (Documented exception: a protocol code without an assigned value is reported as UNRECOGNIZED.)",
 ["inputs","fault_sequences"],"every input or message and every step that can report an error",
 "Tests assert success on good inputs and a handful of error cases; a dropped error is invisible until that particular step fails.",
 ["internal/card","internal/dd","internal/vu","internal/security","internal/cert","unmarshal.go","marshal.go","verify.go"],
 [("err checks after every fallible call","all packages")],
 ["error result of parse/serialise/verify"])
p("P08","A call returns either a usable result or an error, never neither",
 "Every operation of the library that reports a result together with an error returns its result exactly when the error is nil: a message, certificate or other object that is reported without error is never nil, and on failure the result is nil, so no partially filled result is handed out as if it were valid.",
 ["inputs","fault_sequences"],"every return path of every parse, certificate-decoding and certificate-lookup operation",
 "Only the failing paths matter and each must be forced by its own malformed input; the tests force few of them.",
 ["internal/card","internal/dd","internal/vu","internal/security","internal/cert","unmarshal.go"],
 [("return nil, err / return value, nil discipline","all packages")],
 ["(result, error) pair of the public operations"])
p("P09","Driver-card writer emits every elementary file the parser accepts",
 "For driver cards, whatever elementary file the parser stores into the message, under whichever application generation, the serialiser writes back: each stored file is written exactly once, with the same file identifier and the same generation tag the parser accepts it under, and nothing is written under an identifier/generation from which the parser would fill a different field.",
 ["inputs"],"every elementary file of the driver-card structure, in both generations",
 "Round-trip tests exist per element, not for the whole file (the golden driver-card tests have no data here), so an EF that is parsed but not written is not noticed.",
 ["internal/card/driver_card_file.go"],
 [("switch over elementary files on read, one append per file on write","internal/card/driver_card_file.go")],
 ["file serialisation of a parsed driver card"])
p("P10","Stored signatures follow their elementary file unchanged",
 "When a parsed driver-card elementary file carries a signature, serialising writes that signature's bytes, unmodified, in a signature block directly after that file's data block, with the same file identifier and generation. A signature is never attached to a different file or generation and never replaced by filler while a stored one exists.",
 ["inputs"],"every elementary file that can carry a signature, both generations, every signature value",
 "No test serialises a signed driver card and compares signatures.",
 ["internal/card/driver_card_file.go"],
 [("signature TLV appended after the data TLV","internal/card/driver_card_file.go")],
 ["file serialisation of a parsed driver card"])
p("P11","Vehicle-unit framing: size scan and body decoder agree",
 "For every vehicle-unit transfer type, the number of bytes the splitter assigns to a transfer equals, as a function of the counts and sizes stored in the data, the number of bytes the decoder of that transfer type consumes, and the decoder accepts a transfer only if it consumed all of it. So a well-formed transfer is never cut short, over-read into its neighbour, or rejected for its length.",
 ["inputs"],"every transfer type and every combination of embedded record counts and sizes",
 "The two layouts are written in different files and meet only on real multi-record downloads; the vehicle-unit package has no effective tests.",
 ["internal/vu"],
 [("sizeOf* scan vs. unmarshal* consumption + final offset check","internal/vu/activities*.go, overview*.go, events_faults*.go, technical_data*.go, detailed_speed*.go")],
 ["parsing of a vehicle-unit file"])
p("P12","Vehicle-unit transfers are dispatched to their own type and generation",
 "Each transfer response code selects exactly one transfer type; each transfer type is sized, decoded and stored by the code for that type and generation, into that type's place in the result, and repeatable transfers are accumulated in file order rather than overwritten. A transfer that does not belong to the file's generation is rejected with an error, never silently skipped.",
 ["inputs","programs"],"every transfer type known to the schema",
 "Requires one well-formed download per transfer type; none is available to the tests.",
 ["internal/vu/raw_vehicle_unit_file.go","internal/vu/vehicle_unit_file.go","proto/gen/go"],
 [("switches over transfer types; trep/generation annotations","internal/vu/vehicle_unit_file.go, raw_vehicle_unit_file.go")],
 ["parsing of a vehicle-unit file"])
p("P13","Protocol code tables are unambiguous and used symmetrically",
 "Within each coded data type of the schema no two values share a protocol code, so decoding followed by encoding a recognised code returns the same code and different codes never collapse into one value. The same holds for elementary-file identifiers (within one card application), transfer response codes and code-page numbers, and reading and writing consult the same table (text is encoded in the character set it is decoded with).",
 ["inputs","programs"],"every enumeration value and every code byte of every coded type",
 "Tests sample a few codes of a few types; the tables hold several hundred entries.",
 ["proto/gen/go","internal/dd/enum.go","internal/dd/string_value.go","internal/card/infer.go"],
 [("protocol-value annotations looked up in both directions","internal/dd/enum.go")],
 ["decode/encode of coded fields"])
p("P14","Readers and writers agree on field positions in fixed layouts",
 "For every fixed-layout data element that is both parsed and serialised, each field is written to exactly the byte positions it was read from: no two fields are swapped, shifted or overlapped between the two directions, and no field that is read is forgotten on write or vice versa. Writing back a message exactly as it was parsed reproduces the bytes of every field, and where no field is read the retained raw bytes come back unchanged.",
 ["inputs"],"every field of every fixed-layout element with both directions",
 "Round-trip tests over retained raw bytes hide a field that is not written (the raw bytes shine through), and sampled values hide positions that happen to hold equal bytes.",
 ["internal/dd","internal/card"],
 [("offset constants on both sides","internal/dd/*.go, internal/card/*.go")],
 ["positions of field bytes in serialised elements"])
p("P15","Fixed-size elements always serialise to exactly their size",
 "Serialising a data element or card file of fixed size either fails with an error or yields exactly the size its parser requires, whatever values, missing sub-messages or wrong-length byte strings the message holds; so a bad value can never shift the bytes of what follows it.",
 ["inputs"],"every message value of every fixed-size element",
 "Depends on odd-length strings and raw bytes in the message; tests only use correctly sized ones.",
 ["internal/dd","internal/card"],
 [("canvas of constant size; padding/truncation/length errors","internal/dd/*.go Append functions, internal/card append functions")],
 ["length of the serialised element"])
p("P16","Raw card records are split and joined without loss",
 "Splitting a card dump into records and joining the records again reproduces the dump exactly: every byte of an accepted dump belongs to exactly one record, identifier, file-type tag, length and value are kept as read, and a dump with trailing or truncated bytes is rejected rather than shortened.",
 ["inputs"],"every card dump that the raw parser accepts, of any record length up to the format's 65535",
 "The tests use three small synthetic dumps; record lengths near the format limit and truncated tails are not sampled.",
 ["internal/card/rawcardfile.go"],
 [("TLV split function and its inverse","internal/card/rawcardfile.go")],
 ["raw card parse followed by serialise"])
p("P17","Verification succeeds only after every signature was checked",
 "Verifying a driver card reports success only if, for each application the card carries, the cryptographic signature check of the card certificate under its issuer's key was executed and succeeded on that path, and so was, wherever the issuer certificate does not bring its own key, the check of the issuer certificate under the root key; no missing certificate, failed lookup, damaged certificate or unexpected field value can lead to success.",
 ["inputs","fault_sequences"],"every driver-card message and every behaviour of the certificate resolver",
 "Needs forged or damaged certificates for every branch; tests cover the low-level checks with a few mutations and the file-level verification not at all.",
 ["verify.go","internal/card/driver_card_file.go","internal/security"],
 [("error returned unless the recovered digest / ECDSA check matches","internal/security/rsa_verify.go, ecc_verify.go")],
 ["result of file verification"])
p("P18","The signature-valid flag is set only by a successful check",
 "A certificate's signature-valid flag is true after a verification attempt only if that attempt's cryptographic check succeeded; whenever the attempt reports an error the flag is false, even if it was true before, and nothing but a verification attempt ever sets it to true.",
 ["inputs","histories"],"every certificate, issuer and earlier state of the flag",
 "A stale flag is only visible when a certificate that verified before is re-verified against a different or damaged issuer.",
 ["internal/security/rsa_verify.go","internal/security/ecc_verify.go"],
 [("flag set to false on failure paths and true at the end","internal/security")],
 ["signature-valid flag of certificates after verification"],
 [("signature_valid","result of the last verification attempt","certificate messages")])
p("P19","Certificates are trusted only through the issuer they name",
 "A certificate is accepted only on the strength of the issuer whose reference it carries: the issuer is looked up by exactly that reference, an issuer certificate that comes without an established public key is itself verified against the root before its key is used, and a key whose holder reference differs from the certificate's authority reference is refused.",
 ["inputs","fault_sequences"],"every certificate chain and every answer of the certificate resolver",
 "A wrong-but-well-formed issuer is needed; tests use matching chains.",
 ["internal/card/driver_card_file.go","internal/security"],
 [("CAR/CHR lookup and comparison, CA verified before card","internal/card/driver_card_file.go, internal/security/rsa_verify.go")],
 ["result of file verification"])
p("P20","Certificate lookup: embedded first, network last, validated answers",
 "Certificates shipped with the library are found by the reference they are stored under without touching the network, and the network is consulted only after the embedded store has no answer. A network answer is used only if the request carried the caller's context and the response status was success; the response body is always closed, and any failure is reported as an error.",
 ["inputs","fault_sequences"],"every certificate reference and every HTTP outcome",
 "There is no network and no test of the resolvers.",
 ["cert.go","internal/cert"],
 [("resolver chain order; embedded store keyed by reference; status check","internal/cert/chain.go, client.go, embedded.go, certcache/embed.go")],
 ["HTTP requests issued, certificates returned"])
p("P21","Anonymisation lets no personal data through",
 "The anonymised copy of a record contains no value derived from the original's personal data: names, card and licence numbers, vehicle registrations, identification numbers, authorities, dates of birth, positions, and retained raw bytes or signatures are replaced by fixed test values. Only structural and coded fields, times, rounded odometer readings, indices and the preferred language may be carried over. The original is left unmodified.",
 ["inputs"],"every message of every type that can be anonymised",
 "Tests compare single examples; a leaking field is only noticed if the example has it filled.",
 ["internal/dd","internal/card"],
 [("field-by-field rebuild of the message with constants","Anonymize* functions")],
 ["fields of the anonymised message"])
p("P22","The command-line tool reports every failure",
 "The parse command processes every named file in order and exits with a non-zero status if reading or parsing any of them fails; it exits with zero only if the parsed form of every file was printed, and a failing file never yields output that looks like a parsed message.",
 ["inputs","fault_sequences"],"every list of file arguments, every read or parse failure among them",
 "The command has no tests.",
 ["cmd/tachograph/main.go"],
 [("error returned from the command handler, non-zero exit in main","cmd/tachograph/main.go")],
 ["exit status and output of the tool"])
p("P23","The certificate fetcher stays in its directory and indexes only what it saved",
 "Whatever the certificate website answers, the fetch tool creates, overwrites or deletes files only inside the chosen output directory. It lists a certificate in the index only after the downloaded certificate was saved successfully under the listed path, ignores responses without success status, and lists shared results without data races.",
 ["inputs","fault_sequences","schedules"],"every response of the website, every download/write failure, every interleaving of downloads",
 "The tool has no tests; file names derive from remote HTML only in unusual responses.",
 ["tools/cmd/fetch-certs/main.go"],
 [("file names from numeric references or sanitised names; mutex around the shared list","tools/cmd/fetch-certs/main.go")],
 ["files written by the tool, index content"])
p("P24","Parsing needs memory proportional to the input",
 "The memory parsing allocates is bounded by a fixed amount plus a fixed multiple of the input size: no allocation size, list capacity or repetition count is taken from a length or count field of the input without first being limited by the bytes actually present.",
 ["inputs"],"every byte string; every allocation and every appending loop on the parse path",
 "A huge claimed count in a tiny file must be tried for every count field; tests use honest counts.",
 ["internal/card","internal/vu","internal/dd"],
 [("counts are checked against remaining bytes; records appended one by one","internal/vu/*.go, internal/card/*.go")],
 ["memory use of file parsing"])
p("P25","Verifying and anonymising never panic",
 "For every file message, however it was built (missing or damaged certificates, keys that are not points of their curve, zero or oversized RSA moduli, byte strings of any length), verifying its certificates and anonymising its records either completes or returns an error and never panics.",
 ["inputs","fault_sequences"],"every message value and every answer of the certificate resolver",
 "The crypto library panics on some malformed keys and the byte offsets of a certificate come from the message; tests verify genuine certificates with a few flipped bytes.",
 ["verify.go","internal/security","internal/card","internal/dd"],
 [("length and curve checks before key material is used","internal/security/rsa_verify.go, ecc_verify.go"),("nil-safe rebuild of records","Anonymize* functions")],
 ["the call to file verification and to the anonymise operations"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
