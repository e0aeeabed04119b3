BASE="Sound for the stated rule under the modelled semantics of the Go standard library calls involved; what the analyser cannot model it reports instead of passing. "
CLAIMS={
"C01":("path-sensitive abstract interpretation of Size and Encode to symbolic byte counts, compared as linear forms",BASE+"Assumes a message is smaller than 2^31 bytes (int32 size arithmetic does not wrap)."),
"C02":("abstract interpretation of Encode and Decode to typed wire layouts, unified field by field; primitives compared byte by byte",BASE+"All 371 message versions."),
"C03":("wire layout extracted by abstract interpretation, compared with a reviewed protocol table (spec/messages.json)",BASE+"Trusts spec/messages.json, reviewed against the Kafka 2.4 protocol."),
"C04":("interval/linear-inequality abstract interpretation with an inductive decoder invariant; index, slice and allocation obligations",BASE+"Signed wrap-around is modelled."),
"C05":("path-sensitive error-flow analysis of every Decode method",BASE),
"C06":("typestate (first error sticks) over every Encoder method",BASE),
"C07":("value analysis of emitted length prefixes",BASE),
"C08":("ownership/aliasing analysis of every decoded value against the decoder buffer",BASE),
"C09":("abstract interpretation of Connect, the goroutines it starts and Do: provenance of request id, table entry, decode function and reply channel on every path and loop round",BASE+"Both TLS and plain connections; goroutine roles (reader, receiver) are found from what they call."),
"C10":("lockset analysis over all paths of Do and of the goroutines: one lock spans encode to Flush",BASE),
"C11":("wait-graph analysis: least fixpoint of what each goroutine's exits close, over every blocking operation of Do, the goroutines and Close",BASE+"Assumes the Go runtime's channel, select and net.Conn.Close semantics; C16 covers the ring's own waits."),
"C12":("wait-graph fixpoint over goroutine exits, socket and ring closing, plus join obligations of Close",BASE),
"C13":("lockset race analysis of all memory reachable by more than one goroutine; lock balance and order",BASE),
"C14":("interval/linear-inequality abstract interpretation of the receive loop; frame typestate (size, payload, decode)",BASE+"A frame of up to 50 MiB counts as legitimate, one of 1 GiB or more as absurd."),
"C15":("abstract interpretation of the ring on a symbolic capacity and cursors; a transfer automaton replayed over every path, loops by inductive guess-and-check",BASE+"Capacity 2 to 2^31-1, n at most the length of the buffer given; sequentially consistent atomics (Go memory model)."),
"C16":("latch typestate (publish, announce, wait on fresh position) over every path of the ring, loops by inductive guess-and-check",BASE+"Same bounds as C15; select semantics of the Go runtime."),
"C17":("abstract interpretation of NewBroker over a symbolic api version list; exhaustive case split on the version comparison",BASE),
"C18":("abstract interpretation of all 48 api methods with Conn.Do as a hook: provenance of key, version, ids, request and response",BASE),
"C19":("constant analysis of negotiated maxima against the table of flexible versions (KIP-482)",BASE+"Two genuine known findings."),
"C20":("typestate (open, closed, handed over) of every connection over all paths of the exported lookups, NewBroker and Connect; census of connecting call sites",BASE),
"C21":("path-sensitive value analysis of lookups: provenance of dialed address, key equalities entailed at the dial, complete searches refuting every element at each refusal",BASE),
"C22":("abstract interpretation of lookups with connecting and requesting as steps that succeed or fail; loop summary of the bootstrap loop",BASE),
"C23":("abstract interpretation of Connect and of every option closure: each connecting call guarded by the configured TLS configuration; census of connecting call sites",BASE),
"C24":("abstract interpretation of RecordBatch.Encode and Size to a sequence of typed fields with symbolic values; Header.Range as a loop over unknown pairs; byte counts compared as linear forms",BASE+"Header.Range is taken to visit the same pairs on every call; a record stays below 2^31 bytes. Nil and empty keys and values are not told apart."),
"C25":("context-flow analysis: every waiting step of an exported operation receives its context",BASE+"Flow is checked, not timing. Eight genuine known findings (all four operations)."),
"C27":("typestate of table entries, goroutines and lists over every way out of Do; removal by the receiver before every reply",BASE),
"C28":("ownership analysis: on every way out of Do the reply was received, the receiver has ended, or the entry was taken back in one critical section",BASE),
"C29":("whole-program inclusion-based points-to and write-effect analysis from every exported operation, with objects classified by owner",BASE+"A lock-guarded cache added to Client or Broker would be reported too."),
"C30":("error provenance over every path: the value returned after a failed step is that step's error or wraps it (%w, errors.Join), through helpers, loops and the reply channel",BASE+"Custom error types with an Unwrap method would be reported."),
"C31":("obligation at every instruction that can panic, discharged by the path facts of the abstract interpretation of every entry point (nilness, ranges, divisors, assertions), with a whole-program inference of references that are never nil",BASE+"A reference kept non-nil by a protocol between methods, instead of by construction, would be reported."),
"C32":("closer/sender analysis over every path of every activity of a connection, the ring and the broker: one closer that runs once (goroutine, sync.Once, atomically checked flag) per channel, no sender besides it",BASE+"Other run-once idioms than those named would be reported."),
"C33":("ranking of every way around every natural loop of the SSA form: it waits for somebody else, or changes what its conditions depend on (read/write footprints through calls); counters against the extremes of their types; connecting and requesting loops bounded by what they walk",BASE+"A loop whose values change without nearing the end (other than the named shapes) is not found; recursion is judged only when the arguments stay the same."),
}
NA={"C26":"liveness under a fair scheduler and a cooperating peer quantifies over unbounded runtime schedules and network timing; no static argument in reach bounds it (its safety parts are C09, C11, C14, C15 and C16)"}
