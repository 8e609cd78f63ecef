#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
here=os.path.dirname(os.path.abspath(__file__))
props=[json.loads(l)["id"] for l in open(os.path.join(here,"..","properties.jsonl"))]
C={}
def c(id,technique,level,note): C[id]=(technique,level,note)
c("P04","interprocedural may-alias (ownership) analysis over Go SSA with context-sensitive function summaries","proof",
  "every store of a referencing value into a message and every write reachable from UnmarshalFile is shown not to involve the caller's slice, a scanner buffer or a package variable")
c("P05","interprocedural mutation (effect) analysis over Go SSA on the same alias summaries","proof",
  "no store, append, copy, setter or writing library call reachable from MarshalFile/VerifyFile can reach memory of the message, except the listed certificate fields")
c("P06","call-graph effect analysis over Go SSA: forbidden sinks (I/O, clock, randomness, environment, goroutines), package-state writes and order-dependent map iterations","proof",
  "every function reachable from parse, marshal and anonymise is examined; library calls are judged by package and symbol")
c("P07","path-sensitive error-flow analysis over Go SSA (nil/bool facts, cells, failure paths)","proof",
  "every fallible call reachable from the operations is an obligation: its failure must reach an error result or an exempted, documented form")
c("P08","path-sensitive result/error pairing analysis over Go SSA","proof",
  "every return of every function with a (result, error) signature reachable from the library's exported operations")
c("P13","decoding of the compiled descriptors plus conditional constant propagation and value-flow queries over Go SSA","proof",
  "every code of every table, every read of a code extension, every enum/integer conversion and every code page")
c("P17","path-sensitive interprocedural typestate analysis over Go SSA (symbolic terms, branch facts)","proof",
  "every path of VerifyFile that can end without error must have passed a successful comparison over the card certificate's bytes under the issuer's key")
c("P18","typestate analysis of the signature-valid flag on every path of the verification functions, plus a who-may-set query","proof",
  "flag value at every error return; every setter call and builder field in the library")
c("P19","value-provenance (dataflow) analysis of issuer keys and reference comparisons on every verification path","proof",
  "issuer looked up by the certificate's own reference, compared, and itself verified when its key is not established")
c("P20","path-sensitive event-order analysis of the default resolver with devirtualised calls, plus a query over the embedded files","proof",
  "every path of each lookup kind through the resolver chain")
c("P21","interprocedural taint analysis over Go SSA from the original's personal fields to the anonymised result (context-sensitive, field-sensitive on result messages), plus a mutation query","proof",
  "every Anonymize operation with all helpers and serialisers it calls; every setter, store and copy in them")
c("P22","path-sensitive symbolic-term dataflow over the command body with the file list unrolled, plus an exit-status query on main","other",
  "every path of the command body for up to three files (the loop body is the same for further ones), and every path of main")
c("P23","value-grammar (taint) analysis of every path argument, path-sensitive typestate of entry listing and response status, and a lockset analysis of captured variables","proof",
  "every file-changing call of the tool, every point where an entry enters the index, every use of a response body, every access of a variable shared with tasks")
T="abstract interpretation over Go SSA: linear-inequality facts with inferred loop invariants, path conditions, inlining and function summaries; every panic source is an obligation to be entailed"
c("P01",T,"proof","every index, slice, conversion, assertion, dereference, division, make and partial library call in every function reachable from file parsing; all discharged on the unchanged tree")
c("P03",T,"proof","every index, slice, conversion, assertion, dereference, division, make and partial library call in every function reachable from file serialisation; all discharged on the unchanged tree")
c("P25",T,"other","every panic source reachable from verification and the anonymise operations; obligations whose truth rests on a nil receiver nobody passes are reported as undecided in the evidence and not claimed")
c("P02","termination analysis: synthesis of lexicographic ranking functions over the same linear abstract domain (Go SSA, inferred invariants, path conditions), plus a call-graph query for recursion on the input","proof","every loop of every function reachable from file parsing has a quantity that provably gets closer to a bound in every round; recursion is shown to be absent or to go over message types only")
c("P24","abstract interpretation over Go SSA: every allocation size and every number of rounds of an allocating loop must be bounded by bytes that are present in the input","other","every make, growing append and allocating loop reachable from file parsing; a constant 64K-element allowance per transient allocation is granted where the declared count is checked before the function succeeds")
c("P16","path-sensitive symbolic-term dataflow over Go SSA of splitter and joiner in sequence, with byte- and bit-level provenance (linear offsets into a symbolic dump; model of bufio.Scanner)","other","every path over dumps of up to three records (the loop state is the offset alone): what the joiner writes is the dump byte for byte, the dump is known to end there, and each record's fields are those of its bytes")
c("P15","abstract interpretation over Go SSA (linear length facts, function summaries): the growth each writer can produce is compared with the length its reader accepts","proof","every pair of reader and writer of an element of fixed size in internal/dd and internal/card, for a present and (where another writer can pass one) a missing message")
c("P12","path-sensitive symbolic-term dataflow over Go SSA with the transfer list unrolled, combined with the compiled descriptors (types, codes, annotations)","other","every transfer type and every ordered pair of types through the assembler; every code through the splitter; every type through the sizing dispatch")
T2="path-sensitive symbolic-term dataflow over Go SSA with the record list unrolled and the output kept as a symbolic byte string, combined with the compiled descriptors (elementary files, identifiers)"
c("P09",T2,"other","the table of accepted elementary files derived from the reader for every file and generation; the writer followed for every place and every pair of places of the file message")
c("P10",T2,"other","every accepted file followed by its signature, by a signature of unknown file and generation, and by another file; every place and pair of places through the writer")
c("P14","path-sensitive symbolic-term dataflow over Go SSA of reader and writer in sequence, with bit-level provenance of every byte (symbolic input and symbolic retained raw bytes)","other","every bit that every writer of an element of fixed size produces, on every path, for every message its reader returns, with and without the retained raw bytes")
NA={}
for p in props:
    if p not in C and p not in NA: NA[p]="check under construction"
m={"version":1,"setup_cmd":"./run.sh build","checks":[],"not_applicable":[{"property":k,"reason":v} for k,v in NA.items()]}
for p in props:
    if p in C:
        t,l,n=C[p]
        m["checks"].append({"property":p,"quick_cmd":"./run.sh %s quick"%p,"thorough_cmd":"./run.sh %s thorough"%p,"technique":t,"level":l,"level_note":n})
json.dump(m,open(os.path.join(here,"..","MANIFEST.json"),"w"),indent=1); print(len(m["checks"]),"checks")
