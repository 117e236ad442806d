TEXT = {
'C01': '*Oracle:* no run-time panic and a normal return; the engine checks every index, slice and type assertion of the code under test. *Outside:* buffers longer than the stated sizes except maximal frames, for which the contents that are not length or class bytes are symbolic too.',
'C02': '*Oracle:* an independent framing function in the harness (length, XOR checksum), written from the Z-Wave frame format.',
'C03': '*Oracle:* byte-by-byte comparison with a copy, and structural comparison of the two decoded messages.',
'C04': '*Oracle:* layout recomputed in the harness; the decoder of C02. All lengths 0..252 are covered, so the bound is the protocol’s.',
'C05': '*Oracle:* the list of valid frames that the harness put into the stream, in order. A pause of more than 40 ms discards what was received before it; symbolic durations make the 40 ms limit exact. *Outside:* more than three segments or four reads.',
'C06': '*Oracle:* number of valid frames by the harness’s framing function = number of ACK bytes, nothing else written.',
'C07': '*Oracle:* fields recomputed from the frame bytes.',
'C08': '*Oracle:* bit positions and masks of the serial API specification. The bound is the protocol’s (29 bytes).',
'C09': '*Oracle:* table of (class, command, length) in the harness and fields recomputed per kind.',
'C10': '*Oracle:* exact: the float result must equal the correctly rounded quotient of the signed integer and the power of ten (IEEE terms in the solver); names and units compared with the table of the specification. All 2^32 values of every size, precision and scale.',
'C11': '*Oracle:* the level as exact float comparisons for every float64 including NaN, infinities, denormals.',
'C12': '*Oracle:* layout recomputed; the wrapped command is compared before and after.',
'C13': '*Oracle:* the specification’s piecewise definition; all 256 values.',
'C14': '*Oracle:* the matching rule written from the frame format, applied to the symbolic frame; observed through the public request methods, not through the matching function.',
'C15': '*Oracle:* the result of the caller’s channel and the virtual time at which it comes.',
'C16': '*Oracle:* the sequence of writes at the port with their virtual times.',
'C17': '*Oracle:* a reference map node → last reported state in the harness.',
'C18': '*Oracle:* reference state per node computed from the reports; number of update events.',
'C19': '*Oracle:* bytes written by a node, recomputed from class set and level.',
'C20': '*Oracle:* lookup by number against the reported count or stored list.',
'C21': '*Oracle:* a simulated device in the harness answers with symbolic contents; the node afterwards is compared with what it said and with the database entries.',
'C22': '*Oracle:* each request of the identification is stamped with the virtual time of the last wake-up.',
'C23': '*Oracle:* the bitmap; the count of discovery events per node; identity (same object) of nodes known before.',
'C24': '*Oracle:* the sequential meaning of add/get/list, map race detection, deadlock detection.',
'C25': '*Oracle:* member-by-member comparison of the nodes before saving and after loading, then behaviour: a report and a command to each restored node and endpoint.',
'C26': '*Oracle:* what a fresh process loads after the crash is the last completed configuration or the one being saved. The file-system model loses unsynchronised data and reorders it before renames unless it was synchronised.',
'C27': '*Oracle:* no panic; error or nodes; all methods of each node afterwards. *Outside:* documents with more than the stated number of deviations.',
'C28': '*Oracle:* the ids recorded in the device that is returned; for classes the specification text. All 2^48 triples, as the key text is symbolic.',
'C29': '*Oracle:* the list of transfers at the port below the recorder.',
'C30': '*Oracle:* the rows of the recording, joined by the one-millisecond rule in the harness; lines ordered by time.',
'C31': '*Oracle:* the harness’s port opener and ports: times of opening, number of writes, reported connection state.',
'C32': '*Oracle:* virtual time of the effects of a report, and the sequence of events read.',
'C33': '*Oracle:* what a second controller loads from the file ten seconds later.',
'C34': '*Oracle:* the constants of the package, read from its own type information on each run. All 256 codes.',
'C35': '*Oracle:* the Go literal rules (strconv.Unquote executed symbolically) for texts; the class table of the library for labels; the specification text for the mandatory table. The mains of both generators run whole: their templates are evaluated by the engine (model of text/template), the Go source they write is read back by a tokenizer in the harness and compared with the input files (texts symbolic, references symbolic).',
'C36': '*Oracle:* happens-before over all memory accesses (vector clocks), deadlock detection. Race freedom on the explored schedules is also what justifies that other goals only switch goroutines at synchronisation operations.',
'C37': '*Oracle:* the class and command bytes of the Z-Wave specification; the requests as written by the node, the reply given to each of them.',
'C38': '*Oracle:* the text built digit by digit in the harness from the payload. Numbers of other formats are concretised by the solver one value after another until none is left, so all values are covered. *Outside:* sensor values of more than one byte (their decoding is C10).',
'C39': '*Oracle:* runtime.NumGoroutine before and after (the engine counts the goroutines of its scheduler), calls of the port opener. *Outside:* one idle send worker after a Connect whose port opened first and failed then.',
}
SEEDED = {
'b01': 'caught by C05 (strengthened: VerifC05Trickle)', 'b04': 'caught by C33 (strengthened: bursts, updates while saving)', 'b05': 'caught by C16 (strengthened: doubled answers)',
'b07': 'caught by C31 (strengthened: VerifC31Errors)', 'b10': 'caught by C32 (strengthened: VerifC32Order)', 'b12': 'caught by C15 (strengthened: symbolic timeouts, VerifC15Timeout)',
'b18': 'caught by C20', 'b31': 'caught by C21 (strengthened: all protocol-info flags symbolic)', 'b49': 'caught by C29 (strengthened: VerifC29Stalled)', 'b22': 'caught by C22 (strengthened: restored nodes, ten seconds after the last wake-up)', 'b29': 'caught by C36 (strengthened: each method by itself)',
'b28': 'caught by C06', 'b32': 'caught by C14 (takes about two minutes)',
'b58': 'caught by C17 (strengthened: VerifC17Ids)', 'b59': 'caught by C16 (strengthened: VerifC16Resend)', 'b60': 'caught by C15 (strengthened: VerifC15Refused)',
'b61': 'caught by C33 (strengthened: VerifC33Slow)', 'b62': 'caught by C29 (strengthened: VerifC29Long)',
'b63': 'caught by C05', 'b64': 'caught by C31 (strengthened: VerifC31Errors with bytes beside the error)', 'b65': 'caught by C21 (strengthened: nine end points, states requested)', 'b66': 'caught by C37 (strengthened: VerifC37Many)', 'b67': 'caught by C11 (strengthened: longer raw commands)',
'b55': 'caught by C35 (strengthened: VerifC35Mandatory runs the generator whole)', 'b56': 'caught by C35 (strengthened: VerifC35References)', 'b57': 'caught by C30 (strengthened: order of lines)',
}
TAIL = '''
## 7. False alarms met on the way, and what was done

* C05: a corrupted frame whose body contains a start byte can legitimately swallow the frame behind it (the format
  cannot tell); the statement says "no further start byte inside".
* C14: protocol-info replies name no node; the statement says that they answer the oldest such request.
* C18: two active alarms within a second: when the first clearing timer fires is not specified by anything in the
  repository, so sequences with a second alarm before the clearing are excluded from the clearing assertion.
* C22: protocol info is answered by the controller itself; requesting it while the node sleeps is allowed.
* C36, C15: the callback of `time.AfterFunc` happens after the call that started the timer; the race detector first
  lacked that edge.
* C35: an escape in octal or as `\\u` is as good as `\\x`; the unquoting oracle first knew only what `%q` writes today.
* A large rewriting of the repository that keeps its behaviour (helpers extracted, loops and switches rewritten, other
  standard-library calls, `sync.Map`, `sync.Cond`, atomics, `errors.Join`) was made in a scratch copy; all checks were
  run on it with VERIF_REPO and stay quiet. `tools/smoke.sh` runs standard-library functions under the engine.
* C36: reading exported fields of a node without its lock is the caller's own race; the property is about methods.

A mutation campaign (operators, constants, dropped statements, swapped branches; 906 mutants generated, 610 run) ran in a
scratch copy: 323 were caught by the existing tests, 23 did not build, 174 of the remaining 264 were caught by the checks.
The 90 survivors were read one by one. Most are equivalent (log lines, error texts, unused constants and functions,
redundant guards, timeouts nothing promises); the others led to: order of lines in C30, endless loops (next paragraph), bare nodes in C37, endless identification in C21, the mains of the generators in C35.

Loops that do not end: a path that exceeds the step budget proves nothing by itself. Its inputs are solved and run on the
compiled code; only when that does not end within 20 s either is it reported (kind "nontermination").

## 8. Limits

* Delay-bounded schedules: an error needing more deviations than the bound is missed.
* Sizes beyond the bounds of each goal; more than two ports failing; more than three nodes in state comparisons.
* Goals whose data is fully discrete (which answer, which moment) rely on case splits by the explorer; the solver then
  only decides the data and time conditions. Where it matters times are symbolic (see section 1).
* Timing figures depend on virtual time: computation takes no time, so "at once" means "before any other timer".
'''
