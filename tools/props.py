"""The one source of properties.jsonl, MANIFEST.json and DESIGN.md's table of checks.

   P(id, title, statement, over, quantifier text, why tests cannot, files, mechanism, method, note)
"""
PROPS = []
def P(id, title, statement, over, qtext, why, files, mech, method, note="", observe=None):
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over.split(), qtext=" ".join(qtext.split()),
        why=" ".join(why.split()), files=files.split(), mech=mech, method=" ".join(method.split()), note=" ".join(note.split()), observe=observe))

P("C01", "Ring buffer is a bounded first-in first-out queue",
  """A ring buffer of capacity N behaves, over any history of single and bulk inserts, reads, peeks, culls, searches, clears and
  removals, exactly as a first-in first-out queue of at most N elements: what is read is what was inserted, in order, unchanged by
  where the storage wraps. An operation that does not fit or finds nothing transfers only what its return value says, count and
  vacancy always agree with the content, and no element outside the queue's content is ever delivered or overwritten.""",
  "histories configurations", "every history of operations, for every capacity, element size and wrap position",
  "The unit tests run one scripted fill/drain per operation, at one or two capacities and from few head/tail positions.",
  "src/RingBuffer.h", [("modular head/tail arithmetic", "src/RingBuffer.h insert()/get()/peek()/cull()")],
  "real class vs std::deque; all histories up to state equality (content, wrap position) for small capacities and element sizes, plus unmerged short histories and wide capacities")

P("C02", "Priority queue orders by priority, first-come first-served among equals",
  """Over any history of inserts (with and without priority, unconditional or only-if-absent), dequeues, recycles, removals by
  position or by value, clears and priority increments or decrements, the priority queue's content is exactly the multiset inserted
  and not yet removed, held in non-increasing priority order with elements of equal priority in the order they arrived there.
  Removal by value removes every match; sizes, positions, membership and priorities reported by the queue agree with that content,
  and all of its memory is released when it is destroyed.""",
  "histories", "every history of operations over a few elements and priorities, with duplicates",
  "The unit tests insert one random set and drain it; mixed histories with duplicates, recycling and re-prioritising are not reached.",
  "src/PriorityQueue.h", [("sorted linked insertion and re-linking", "src/PriorityQueue.h")],
  "real class vs stable-sorted vector; all histories up to state equality, plus unmerged short histories; allocation balance checked")

P("C03", "Linked list keeps insertion order and removes exactly what was asked",
  """Over any history of appends, head insertions, removals from the head, by position or by value, and clears, the linked list holds
  exactly the elements inserted and not yet removed, in list order. Removal by value removes every match and reports whether there was
  one; size, positional reads and membership agree with the content, and every node is released once.""",
  "histories", "every history of operations over a few distinct and duplicate elements",
  "The unit tests run a scripted sequence; duplicates, head/tail removals and emptied lists in combination are not reached.",
  "src/LightLinkedList.h", [("singly linked nodes with a cached count", "src/LightLinkedList.h")],
  "real class vs std::vector; all histories up to state equality plus unmerged histories; allocation balance checked")

P("C04", "Element pool hands each element out at most once and takes each back once",
  """Over any history of takes and gives, an element pool never hands out an element that is already out, hands out every
  preallocated element before it falls back to the heap, and accepts back preallocated and heap elements alike without corrupting
  either. Counts of outstanding and available elements, and the low-water mark, agree with the history, and heap elements are freed exactly once.""",
  "histories configurations", "every history of takes and gives in any order, for several pool depths",
  "The unit tests take and give in one order; the interleavings of returns with overdraw are not reached.",
  "src/ElementPool.h", [("ring of free element pointers, address classification on return", "src/ElementPool.h")],
  "real class vs sets; all histories up to state equality (which elements are out, free-list order)")

P("C05", "String builder edits behave as edits of one flat byte string",
  """However its content was assembled (any fragmentation, by copy or by handoff), a string builder behaves under concatenation,
  prepending, handoff between builders, culling, clearing, collapsing, byte access and copying out as the single flat byte string that
  the same edits would produce: length, bytes and null-terminated rendering always agree with it. Handoff moves content without losing
  or duplicating a byte and leaves the source holding exactly the remainder; no byte outside the content is read or written, and
  every fragment is released exactly once.""",
  "histories inputs", "every history of edits on up to three builders, over every fragmentation of short contents",
  "The unit tests use a few fixed strings and fragmentations; the fragment boundary relative to each edit is sampled, not covered.",
  "src/StringBuilder.h src/StringBuilder.cpp", [("chain of fragments collapsed on demand", "src/StringBuilder.cpp collapseIntoBuffer()/concatHandoff*()/cull()")],
  "real class under ASan vs std::string; every history up to state equality (fragment contents of every builder)")

P("C06", "String search, compare, replace and tokenising ignore fragmentation",
  """Containment, first-position search, comparison, equality with and without case, substitution and tokenising of a
  string builder's content give the answer the flat byte string gives, for every pattern and every way the content is split into fragments.
  Substitution replaces every non-overlapping occurrence from left to right and nothing else.""",
  "inputs configurations", "every short content over a small alphabet, every fragmentation of it, every short pattern and replacement",
  "The unit tests search a handful of strings with matches at convenient places relative to the fragments.",
  "src/StringBuilder.h src/StringBuilder.cpp", [("locate(), replace(), contains(), cmpBinString(), split(), implode()", "src/StringBuilder.cpp")],
  "all contents x fragmentations x patterns up to a length over a 2-3 letter alphabet, against std::string")

P("C07", "Numbers render to and parse from text exactly",
  """Text appended by the numeric and formatted append operations of a string builder equals the C library's rendering of the same values, whatever its length,
  and a token read back as a signed, unsigned 64-bit or floating number equals the number its text denotes (decimal, or hexadecimal after 0x).
  A hex dump shows every byte of its buffer at its offset, and letter-case conversion and caseless comparison affect exactly the ASCII letters.""",
  "inputs", "every value of a boundary-dense set for every width and every token position",
  "The unit tests parse a few typical numbers.",
  "src/StringBuilder.h src/StringBuilder.cpp", [("concat(number), concatf(), position_as_*(), toUpper()/toLower(), printBuffer()", "src/StringBuilder.cpp")],
  "enumeration of boundary-dense values per width, of all short tokens, and of all string lengths across the formatter's buffer, against libc")

P("C08", "Step sequencer runs a step only after everything it depends on passed",
  """Over any dependency graph, any set of requested steps and any outcomes, the sequencer dispatches a step only when it is requested
  (directly or because a requested step depends on it) and each of its dependencies has passed, polls only steps that are running, and never
  repeats a completed step unless it was reset or requested again. Step states, request fulfilment and failure reports always agree
  with the outcomes the step functions returned, and a step whose dependencies fail never runs.""",
  "histories configurations schedules", "every dependency graph over a few steps, every request/reset/poll history and every outcome of every step call",
  "The unit test drives one fixed graph with one outcome script.",
  "src/AsyncSequencer.h src/AsyncSequencer.cpp", [("flag masks for requested, running, complete and passed steps", "src/AsyncSequencer.cpp poll()/requestSteps()")],
  "real class vs set-based model; every graph of <=4 steps (acyclic), requests, outcomes, up to state equality")

P("C09", "State machine follows its planned route, one legal step at a time",
  """Over any history of route setting, appending, prepending, advancing, resetting and time passing, the state machine's current,
  previous and next states are those of the planned route consumed in order, the plan never exceeds its capacity, and an invalid or
  non-fitting request is refused (or a route truncated) as documented and changes nothing else. After a lockout or a slowed-down transition the machine
  reports itself waiting until exactly the asked-for time has elapsed, across clock wrap, and a refused state entry leaves state and plan as they were.""",
  "histories configurations", "every history of route edits, advances, lockouts and time steps for small capacities",
  "The unit tests check one scripted path through a toy machine.",
  "src/FiniteStateMachine.h", [("fixed-capacity waypoint array with lockout timer", "src/FiniteStateMachine.h")],
  "real class vs deque model with controlled clock; all histories up to state equality")

P("C10", "Scheduler runs each schedule when due, as often as configured",
  """An enabled schedule becomes due once its period has elapsed since it was last due and runs exactly once per service after that, in the order due
  schedules were collected; it runs exactly its configured number of recurrences (or forever), and a disabled or exhausted schedule never runs.
  Adding, delaying, enabling, disabling and altering schedules take effect as documented, across the wrap of the clock, and a
  schedule is never listed or run twice.""",
  "histories schedules", "every history of registrations, changes, time advances and service calls over a few schedules",
  "The unit test sleeps real time and counts a single schedule's executions.",
  "src/TimerTools/C3PScheduler.h src/TimerTools/C3PScheduler.cpp src/TimerTools/TimerTools.h",
  [("advanceScheduler()/serviceSchedules() and periodic timeout", "src/TimerTools/C3PScheduler.cpp")],
  "real scheduler with controlled clock vs model; all histories up to a depth")

P("C11", "Periodic timers expire exactly when their period elapsed, across clock wrap",
  """For any start time and period, a periodic timeout reports expired exactly when at least its period has elapsed, its remaining time
  counts down to zero accordingly, and resetting it re-arms it, even if the millisecond counter wraps in between. A stopwatch's
  last, best, worst, mean and total times and its execution count are those of the marked intervals, also across a microsecond wrap.""",
  "inputs histories", "every start time near zero, near the wrap and mid-range, every small and boundary period, every history of mark/advance",
  "The unit tests sleep for a few milliseconds at an arbitrary time.",
  "src/TimerTools/TimerTools.h src/TimerTools/StopWatch.cpp src/CppPotpourri.h",
  [("delta with assumed wrap", "src/CppPotpourri.cpp delta_assume_wrap()")],
  "all histories of set/advance/check for boundary-dense clocks, against 64-bit arithmetic")

P("C12", "Numeric conversion between types is value-preserving or refused",
  """Converting a number of any of the 11 numeric types to any other, through either type's converter, yields exactly the value when the target
  is integral and can represent it (a boolean target: whether it is nonzero; a floating target: the nearest value), and is refused, with the target left untouched,
  when it cannot. All integral and boolean pairs are supported, and the conversion risk reported for a pair agrees with what its conversions do (0: none is refused; -1:
  all are). The length reported for a value is its type's size, and the text of a value is its decimal rendering.""",
  "inputs", "every ordered pair of numeric types and every boundary value of both",
  "The unit tests convert a few random in-range values per pair.",
  "src/C3PValue/C3PType.h src/C3PValue/C3PType.cpp", [("per-type set_from()/get_as() range checks", "src/C3PValue/C3PType.cpp")],
  "all ordered type pairs x every 8/16-bit value and boundary-dense wider values against sign-and-magnitude arithmetic, between guard bytes")

P("C13", "A value container gives back exactly what was put in",
  """A value container constructed from or set to a value of a supported type (the 11 numeric types, strings, blobs, the 8 three-axis vector types, and pointers to string builders,
  key-value pairs, stopwatches, time series and images) reports that type and its length, and returns exactly that value; a numeric container returns it through every numeric getter exactly
  where the conversion is legal and fails otherwise, also as text and as a boolean. Assigning from a value or from another container either succeeds, replaces the
  value and changes the container's trace, or is refused and changes nothing; a string built from a mutable pointer is the container's own copy. A value of another kind is neither
  accepted nor handed out, nothing is written beyond the reader's variable, and memory the container owns is released exactly once whatever the history.""",
  "inputs histories", "every supported type, boundary values of each, and every short history of construct/set/read/delete",
  "The unit tests construct one value per type.",
  "src/C3PValue/C3PValue.h src/C3PValue/C3PValue.cpp src/C3PValue/C3PType.cpp", [("type-punned storage and reap flags", "src/C3PValue/C3PValue.cpp")],
  "all types x boundary values x every history of sets (merged on type and value, and flat), all getters compared after each; allocation balance, AddressSanitizer")

P("C14", "Chained values keep their order and members",
  """A chain of values built by linking single values or chains, from its root or any member, holds exactly the values added and not yet removed, in order; positional access, counting and
  iteration agree with it. Dropping a member removes just that one and re-links its neighbours (also the root); unlinking one cuts the chain there. A removed member is destroyed if that was asked for
  and the chain owns it, and is otherwise left intact to the caller; when the chain is destroyed, each member it owns is destroyed exactly once.""",
  "histories", "every history of link, cut, drop and read over a few values, owned and not, with and without keys",
  "The unit test links a handful of values once.",
  "src/C3PValue/C3PValue.h src/C3PValue/C3PValue.cpp", [("singly linked values", "src/C3PValue/C3PValue.cpp link()/drop()/unlink()")],
  "all histories up to a depth against a vector, with destructor-counting values; allocation balance")

P("C16", "Every value survives serialization and parsing",
  """Packing any integer, float, boolean, text (C string or string builder), blob, three-axis vector, map or stopwatch as CBOR, alone, in a map, or after other values in the
  same buffer, and parsing the bytes again yields the same values in the same order: the same number, bytes, components, keys and pairs (numbers may come back in another width; a string builder comes back as text;
  a map value outside a map comes back as its chain of pairs). The bytes of each are one well-formed CBOR item that means this value, packing does not alter it, and parsing consumes exactly the bytes of one
  complete item at a time, leaves what follows, and delivers nothing while an item is incomplete.""",
  "inputs configurations", "every type, boundary value and length class (23/24/255/256/65535/65536), and every short combination of values",
  "The unit tests pack one random value of each type.",
  "src/C3PValue/C3PValue.cpp src/C3PValue/C3PType.cpp src/cbor-cpp/cbor.cpp",
  [("encoder and decoder", "src/cbor-cpp/cbor.cpp, C3PValue::serialize()/deserialize()")],
  "all types x boundary values, alone, in lists and in maps, every prefix and several fragmentations; independent RFC 8949 reference reader as oracle")

P("C17", "Parsing hostile or truncated CBOR is safe and never invents data",
  """For any byte string at all, parsing values from CBOR terminates without exhausting the stack, reads and writes only memory that it may, releases what it allocates, and delivers only values that
  the bytes encode: a strict prefix of an item, a length or count beyond the input, a vector whose tag or content does not fit its type, yield no value and consume nothing. Complete items of the kinds that the value
  model has (integers from -2^63, floats, booleans, null, text, blobs, non-empty arrays and string-keyed maps nested up to 8 deep, tagged vectors and objects) are delivered, and exactly their bytes consumed.""",
  "inputs", "every byte string up to a length, every one-byte mutation and every truncation of valid messages, every count and length around the integer limits",
  "The unit tests parse only what the encoder produced.",
  "src/C3PValue/C3PValue.cpp src/C3PValue/C3PType.cpp src/TimeSeries/TimeSeries.cpp", [("recursive decoder and length checks", "src/C3PValue/C3PValue.cpp C3PValueDecoder")],
  "all byte strings of length 2 and one (two) more, plus all truncations/mutations of valid messages, under ASan, against a reference decoder")

P("C18", "Key-value maps keep, find and drop exactly the right pairs",
  """A key-value map keeps the pairs linked to it in order, counts them, and answers lookups by key with the first pair that bears exactly that key and by
  position with that pair, over any history of linking, renaming, setting, dropping and joining of maps; dropping a pair removes that pair and no other, and
  everything the map owns is released once. Keys given as const are referenced, others are copied. Packing a map to CBOR and parsing it again (by either parser)
  yields the same keys and values in the same order, nested maps included; pairs without a key are left out. Parsing anything else never reads outside it or leaks.""",
  "histories inputs", "every history of put, get, drop over a few keys (prefixes of each other included) and all value types",
  "The unit tests build one map and look each key up.",
  "src/C3PValue/KeyValuePair.h src/C3PValue/KeyValuePair.cpp", [("linked pairs", "src/C3PValue/KeyValuePair.cpp")],
  "all histories up to state equality against an ordered map, each with a round trip; allocation balance")

P("C19", "The low-level CBOR writer and reader agree with the CBOR standard",
  """Each primitive written by the low-level CBOR encoder is the standard encoding of that value, and the low-level decoder reports to its listener exactly the
  events the byte stream encodes, for every integer width, string length class, container header, tag and simple value.""",
  "inputs", "every boundary value of every item kind and length class",
  "The unit tests reach the encoder only through higher layers with a few values.",
  "src/cbor-cpp/cbor.h src/cbor-cpp/cbor.cpp", [("write_type_value*(), decoder::run()", "src/cbor-cpp/cbor.cpp")],
  "enumeration of boundary values against an independent reference codec")

P("C20", "Link message headers survive serialization and bad ones are refused",
  """A message header written by the link layer is the documented bytes: code, flags, length (one to three bytes, counting itself), checksum and identifier, and is read back with the
  same code, flags, identifier and payload length, in the same number of bytes it announced, however the length was reached. Automatic identifiers are never zero. A header whose code, flags,
  length or checksum are inconsistent (a length absent or smaller than the header itself included), or longer than the link's limit, is never accepted; nothing is consumed of a header that has yet to arrive in full.
  A single flipped bit in the bytes the checksum covers (code, low flags, first length byte, checksum) is always refused.
  A message put together with setPayload() is written as its header and payload, the same each time; it is read back whole from any fragments, taking exactly its own bytes; reply() and ack() make a received message that has an
  identifier into a reply of the same code and identifier. attemptRetry() allows three retries, and wipe() leaves a message as new.""",
  "inputs", "every message code, flag combination, payload length class and identifier, and every single-bit corruption",
  "The unit tests serialize a few headers.",
  "src/M2MLink/M2MLink.h src/M2MLink/M2MMsgHdr.cpp", [("variable length header with checksum", "src/M2MLink/M2MMsgHdr.cpp")],
  "all codes x flags x length/id classes against a reference header codec")

P("C21", "Two linked peers deliver each message once, intact and in order",
  """Two peers joined by a byte stream that loses nothing establish their link and then deliver every message accepted by send(), exactly once, unaltered and in the order sent, in both
  directions, however the stream is split into fragments, however the peers' polling is interleaved, and whenever the transport refuses a buffer for a while. Messages sent before the link is up arrive once it is.
  Payloads up to the link's limit arrive whole; a message over the receiver's limit is never handed over in part. Nothing is leaked.""",
  "schedules histories inputs", "every interleaving of polls, sends, time steps and stream fragmentations up to a bound",
  "The unit test runs one lock-step schedule with whole buffers.",
  "src/M2MLink/M2MLink.cpp src/M2MLink/M2MMsg.cpp src/M2MLink/M2MMsgHdr.cpp src/M2MLink/M2MLink.h",
  [("link state machine, header parse, message queues", "src/M2MLink/M2MLink.cpp")],
  "two real peers, controlled clock, all schedules/fragmentations within bounds")

P("C22", "A link recovers from noise and never delivers corrupt framing as a message",
  """When bytes on the stream are lost, inserted, repeated or altered, or frames and noise from elsewhere appear on it, a link never crashes or leaks, hands over only messages that an intact header
  in the stream it heard frames (with that header's code, identifier and flags), and returns to service once enough clean traffic has passed: afterwards every message sent either way is again delivered once, in order.""",
  "fault_sequences schedules", "every single fault (drop, insert, corrupt) at every byte position of a session, and pairs of faults",
  "The unit tests inject no faults.",
  "src/M2MLink/M2MLink.cpp src/M2MLink/M2MMsgHdr.cpp", [("sync casting and resynchronisation", "src/M2MLink/M2MLink.cpp _process_for_sync()")],
  "fault position enumeration on two real peers")

P("C23", "Requests get their reply, or a bounded number of retries and a timeout",
  """A message that expects a reply is sent again only while unanswered, each time under the same non-zero identifier and after more than the configured timeout, and at most three times more.
  Any answer that arrives while it is outstanding ends that, is handed to the sender under the request's identifier, and is the answer to that request. A request never answered is given up after its retries and counted once
  in replyTimeouts(); an answered one is not counted. Requests waiting for an answer do not hold back other messages, and the link comes to rest, leaking nothing.""",
  "schedules fault_sequences", "every loss pattern of requests and replies and every poll/time schedule within bounds",
  "The unit test has no lost replies.",
  "src/M2MLink/M2MLink.cpp src/M2MLink/M2MMsg.cpp", [("outbound pool, retry count and timeout", "src/M2MLink/M2MLink.cpp")],
  "loss patterns x schedules on two real peers")

P("C24", "A link opens, hangs up and re-opens only through legal states",
  """A link moves only along its documented states, one per poll(), and poll() says when it did; its owner is called exactly once on entering LIVE or HUNGUP. It reports itself connected from
  the end of SYNC_TENTATIVE until HUNGUP and never otherwise. send() is refused with -4 before set-up, while hanging up and when hung up. A polite hangup between two live ends brings both down after everything accepted before it
  has been delivered; a forced one brings its own end down at the next poll from any state. In HUNGUP nothing is delivered and nothing changes until reset(); then the two ends establish a new session, under new tags, with nothing of the old
  one delivered.""",
  "histories schedules", "every history of polls, resets, hangups and time steps",
  "The unit test hangs up once.",
  "src/M2MLink/M2MLink.cpp", [("link state machine", "src/M2MLink/M2MLink.cpp _poll_fsm()/_set_fsm_position()")],
  "all histories up to a depth on two real peers")

P("C25", "Buffer pipes conserve every byte",
  """In any chain of buffer pipe stages (StringBuilderSink, BufferAccepterFork, LineEndingCoDec passing through, C3PTypePipeSource passing through), each push takes all, part or none
  of the bytes offered and returns 1, 0 or -1 accordingly. What was taken arrives downstream exactly once and in order, and on every branch of a fork; what was not taken stays with the
  caller as exactly the untaken tail. A stage never takes more than the room it announces, a fork announces the smaller room of its branches, and nothing is lost, duplicated or
  leaked under back-pressure. Replacing line endings and holding back until a line-break are unfinished features of LineEndingCoDec and are not covered.""",
  "histories configurations", "every sequence of pushes of every small size against every back-pressure pattern",
  "The unit tests push one buffer through each stage.",
  "src/Pipes/BufferAccepter/BufferAccepter.h src/Pipes/BufferAccepter/BufferAccepter.cpp src/Pipes/BufferAccepter/LineCoDec/LineCoDec.cpp",
  [("pushBuffer() contract", "src/Pipes/BufferAccepter/BufferAccepter.h")],
  "all push sizes x downstream answers up to a depth, against byte ledger")

P("C26", "Base64 coding is standard and invertible, and never loses input",
  """Each buffer pushed into the encoder (or each block of the configured input length) comes out as its standard padded Base64 text, and the decoder turns that text back into exactly
  the original bytes. The decoder refuses a buffer that is not Base64 (wrong alphabet, length or padding), emitting nothing and leaving the input with the caller. Neither stage takes
  input whose output would not fit in the room announced downstream, and what is not taken stays with the caller.""",
  "inputs configurations", "every content up to a length class mod 3/4, every malformed text, every downstream room",
  "The unit test encodes one random buffer.",
  "src/Pipes/BufferAccepter/Base64/C3P_B64.h src/Pipes/BufferAccepter/Base64/C3P_B64.cpp", [("block-wise coding under back-pressure", "src/Pipes/BufferAccepter/Base64/C3P_B64.cpp")],
  "all contents, malformed texts and downstream rooms within bounds against a reference coder")

P("C15", "Typed pipes deliver each value whole under any fragmentation",
  """Values pushed into a C3PTypePipeSource (CBOR) arrive at the C3PTypePipeSink with the same type, value and order, however the byte stream between them is split. The sink delivers each
  value as soon as its last byte is there and never before, takes exactly the bytes of the values it delivers, and leaves the bytes of an incomplete value with the caller. A value the
  source refuses puts nothing on the wire.""",
  "inputs schedules", "every short list of values and every split of its byte stream",
  "The unit tests pass whole buffers.",
  "src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.h src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp", [("buffered parse", "src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp")],
  "all splits of all short value lists")


P("C27", "The console runs exactly the command lines it is given",
  """However text typed at a console is broken into pieces, the console executes exactly the complete lines received, once each and in order, and nothing of an unfinished line; a line ends with the terminator set (NUL, CR, LF, CRLF). For each line it
  calls the handler of the command named by the first word (without regard to case; else by its one-letter abbreviation) with the remaining words as arguments, and no other; a line that names no command, or has too few arguments, calls none. Backspaces
  remove the character before them in the unfinished line. The history keeps the last lines that succeeded (failed ones too if so set), up to its depth, oldest first. What handlers say, echo and prompts reach the downstream
  or the log once each and in order, also when the downstream refuses for a while. Input over the limit is discarded. Each setting of the console's own configuration command changes that setting and no other.""",
  "inputs schedules", "every short line, every fragmentation of it, every terminator mode",
  "The unit tests push whole lines.",
  "src/Console/C3PConsole.h src/Console/C3PConsole.cpp", [("line accumulation and command lookup", "src/Console/C3PConsole.cpp")],
  "all fragmentations of short inputs against a line-splitting model")

P("C28", "Stored records are read back only if they are exactly what was written",
  """Content of any length put into a record is read back byte for byte from the buffer the record was saved to, under the tag and type it was saved with, and the record loaded has the same name, content, length and hash. A buffer in which
  a byte of the content, the length or the hash was changed, or which was cut short, or which holds another tag or type, is refused, and nothing of it is delivered as content; what follows the record in a buffer is not taken for it.
  A record with the same content has the same hash, and one that differs in any one byte has another.""",
  "crash_points fault_sequences", "every truncation point, every single-byte corruption of every stored byte, every data length class",
  "The unit tests save and load once without faults.",
  "src/Storage/Storage.h src/Storage/SimpleDataRecord.cpp", [("descriptor with hash and length", "src/Storage/SimpleDataRecord.cpp")],
  "all truncations and byte corruptions of stored images on an in-memory store")

P("C29", "Configuration records keep every setting across save and load",
  """A configuration record returns for each key the last value accepted for it, converts types as declared, refuses what cannot be converted, and changes no other key; serializing it and loading that into another record of the same
  definition yields the same settings, whatever was set before. A map serialized with a key whose value cannot be written is still well-formed and holds the rest.""",
  "histories", "every history of sets, resets and save/load over a few keys and types",
  "The unit test saves one fixed configuration.",
  "src/Storage/RecordTypes/ConfRecord.h src/Storage/RecordTypes/ConfRecord.cpp", [("typed key map", "src/Storage/RecordTypes/ConfRecord.cpp")],
  "all histories to a depth against a map")

P("C30", "Identities survive serialization and are found by content",
  """An identity written to bytes is parsed back with the same format, handle, content and persistent flags, from those bytes alone or with more behind them; a buffer too short to hold it is refused. Truncated or malformed
  bytes are never parsed as an identity or read past their end. An identity is found by its name and format, and by no others.""",
  "inputs", "every format, handle length and truncation or corruption",
  "The unit tests round-trip one identity per format.",
  "src/Identity/Identity.h src/Identity/Identity.cpp src/Identity/IdentityUUID.cpp", [("length-prefixed serialization", "src/Identity/Identity.cpp")],
  "all handle lengths, truncations and corruptions under ASan")

P("C31", "UUID text and binary forms invert each other",
  """Rendering a UUID to text gives its 36 lower-case characters in the standard grouping, and only into a buffer with room for them and their terminator; parsing that text (in either case) yields the same
  UUID, for every value. Parsing pairs up hexadecimal digits, skips what lies between, and writes only the bytes for which there were digits. Two UUIDs compare equal exactly if all their bytes are equal. Generated
  UUIDs are of version 4 and its variant, with every other bit as drawn from the random source.""",
  "inputs", "every byte position and boundary byte value",
  "The unit tests check a few UUIDs.",
  "src/uuid.h src/uuid.cpp", [("field-wise conversion", "src/uuid.cpp")],
  "per-byte enumeration")

P("C32", "Time series statistics are those of the current window",
  """After any sequence of additions the window holds exactly the most recent samples in order, and reads back so. Once it is full, minimum, maximum, latest value and mean (and for windows of at least two: RMS,
  standard deviation, median and signal-to-noise, mean squared over variance) equal those computed from the window, for every sample type up to its extremes; until then they are zero. Each addition
  says whether the window is full. The series is dirty from an addition until its values are next taken. Purging, resizing and initialising reset it entirely; memory of the owner's is never resized.""",
  "histories inputs", "every sequence of additions, purges and resizes over small windows and a boundary alphabet",
  "The unit tests feed one random series per type.",
  "src/TimeSeries/TimeSeries.h src/TimeSeries/TimeSeries.cpp", [("ring window with lazily recalculated statistics", "src/TimeSeries/TimeSeries.h")],
  "all sequences to depth vs direct recomputation")

P("C33", "Time series survive serialization with window and statistics",
  """A time series with a full window, serialized to CBOR and parsed again, holds the same samples in the same order with the same window, type, name, units, counts and statistics, wherever its window has wrapped, and goes
  on from there as the original does. Parsing onto an existing series replaces its content in the same way. Serializing does not alter the series; parsing altered bytes does no harm.""",
  "inputs histories", "every fill level and wrap position, every sample type",
  "The unit test round-trips one series.",
  "src/TimeSeries/TimeSeries.h src/TimeSeries/TimeSeries.cpp", [("oldest-first packing", "src/TimeSeries/TimeSeries.cpp")],
  "all fill levels x wrap positions x types")

P("C34", "Sensor filter output is the configured statistic of its window",
  """Once its window is full, a sensor filter reports after each input: the last input (RAW, and the strategies not implemented), the running average (a*(w-1)+x)/w begun at zero (MOVING_AVG), or the median of
  the last w inputs (MOVING_MED); a window of one passes the input on. Each input says whether there is a result. Minimum, maximum, mean, RMS, standard deviation and median are those of the window. Purging, resizing and initialising
  start over; a change of strategy restarts the running average. The same holds per axis for the filter of vectors, whose extremes are by length.""",
  "histories inputs", "every input sequence over a small alphabet, every strategy and window size",
  "The unit test filters one random series.",
  "src/TimeSeries/SensorFilter.h src/TimeSeries/SensorFilter.cpp", [("ring of samples with per-strategy update", "SensorFilter")],
  "all sequences to depth vs direct recomputation")

P("C35", "Axis pipes route and transform three-axis data faithfully",
  """A fork passes each vector to both sides, left first, and answers 0, -1 or -2 for no, one or two failures; a convention stage passes it on with value and error permuted and inverted as its afferent
  frame says (answering -2 with nothing beyond, 0 or -1 as beyond accepted); a terminus takes vectors of its sense (answering 0; -1 for others), counts them, tells its callback, and keeps freshness; a filter
  stage filters its own sense and relays the rest untouched with the answer from beyond; an orientation stage turns gravity into roll and pitch against its up vector. Vectors given are never altered, nothing is
  delivered twice, a stage stays dirty until something took its value, and nothing leaks or crashes without a downstream stage or error.""",
  "inputs configurations", "every stage kind, frame convention, sense and downstream answer",
  "The unit tests push one vector through a few stages.",
  "src/Pipes/TripleAxisPipe/TripleAxisPipe.h src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp", [("pushVector() chain", "src/Pipes/TripleAxisPipe/")],
  "all stages x conventions x answers")

P("C36", "Vector algebra obeys the laws of three-dimensional vectors",
  """Vector operations equal their mathematical definition component by component, on every component alike: addition, subtraction, negation, scaling, division, dot and cross products, comparison and squared length; for fractional types also
  length, normalisation, projection, reflection and angle (to single precision, always within 0..pi).""",
  "inputs", "every vector over a small exact lattice",
  "The unit tests use a few vectors.",
  "src/Vector3.h", [("templated operators", "src/Vector3.h")],
  "exact enumeration over a lattice")

P("C37", "SPI bus runs every queued job once and calls it back once",
  """Every transaction accepted by an SPI bus is started once it is its turn, highest priority first and in the order of submission within a priority, one at a time, as its owner set it up (buffer, chip select, parameters, clock), and tried again while the bus is busy. What became of it (completion, or the fault that it met) is told to its own owner once, in the order in which jobs ended, and a fault of an earlier use is not taken for one of this. An owner that asks for it has the job run again. A transaction that is already with the bus is refused; one refused because a guarded queue is full is called back as flushed and never starts; purging the job in progress, the queue, or one owner's jobs calls back exactly those, once, and starts none of them. A chip is selected exactly while its transaction has the bus, at its own polarity. The bus gives out transactions as long as it has any, never one twice, always blank; afterwards each is back in the pool, buffers marked to be freed are freed once and no others, and the transactions that an owner keeps are idle again.""",
  "histories schedules fault_sequences", "every history of submissions, completions, faults and polls",
  "The unit tests do not run the bus.",
  "src/BusQueue/BusQueue.h src/BusQueue/BusQueue.cpp src/BusQueue/SPIAdapter.h src/BusQueue/SPIAdapter.cpp src/BusQueue/SPIBusOp.cpp", [("work queue, current job, callback queue", "src/BusQueue/")],
  "all histories on the real adapter with a controlled hardware stub")

P("C38", "I2C bus runs every queued job once and calls it back once",
  """Every transaction accepted by an I2C bus is started once, in the order of submission, one at a time, addressed as its owner set it up, and tried again while the bus is busy; a bus that starts jobs as they are submitted does so only if nothing waits. Its outcome, and no fault of an earlier use, is told to its own owner once; a device that has gone is never called, and its waiting jobs go with it. An owner that asks for it has the job run again, after those waiting. A transaction already with the bus is refused. Purging the job in progress, the queue, or one owner's jobs calls back exactly those, once, and starts none of them. Nothing starts on a bus that did not come up. The bus gives out transactions as long as it has any, always blank, and gets each back. A sweep asks for every address from its first to 127 once and in order, ends, leaves other jobs their turn, and the map then shows who answered.""",
  "histories schedules fault_sequences", "every history of submissions, completions, faults, purges and polls",
  "The unit tests do not run the bus.",
  "src/BusQueue/BusQueue.h src/BusQueue/BusQueue.cpp src/BusQueue/I2CAdapter.h src/BusQueue/I2CAdapter.cpp src/BusQueue/I2CBusOp.cpp", [("work queue, current job, callback queue", "src/BusQueue/")],
  "all histories on the real adapter with a controlled hardware stub")

P("C39", "UART forwards each byte once in each direction",
  """Bytes written to a UART, by any of its write functions, reach the hardware once each and in order, as many as its ring has room for: exactly those are taken from the front of what was offered, the number taken is reported, and the rest is left with the caller; a UART that cannot transmit takes none. Bytes received reach the reader, by either read function or by being forwarded, once each and in order; what a forwarded-to reader has no room for, or declines, is kept. The room announced is the room there is. Taking the UART down empties it, unless the hardware refuses; initialization hands the hardware the configuration, and a reset keeps that configuration and its bitrate.""",
  "histories schedules", "every history of writes, receptions and partial hardware acceptance",
  "The unit tests do not run the UART.",
  "src/BusQueue/UARTAdapter.h src/BusQueue/UARTAdapter.cpp", [("ring buffers both ways", "src/BusQueue/UARTAdapter.cpp")],
  "all histories with a hardware stub")

P("C40", "Images store each pixel independently and never write outside",
  """Setting a pixel makes exactly that pixel read back as the colour set, as far as the format can represent it, in every supported format, size, orientation and flip, and changes no other pixel; coordinates outside
  the image are refused, read as zero and change nothing. Colours set by channel, or read in another colour format, keep the upper bits of each channel. Filling sets every pixel. Lines join their ends and stay within
  half a pixel of straight; rectangles, circles, rounded rectangles, triangles and characters touch exactly their shape, cropped to the image wherever they lie. Text advances, wraps and is bounded as measured. Buffers
  are never overrun, whatever sequence of sizes, formats and buffers an image is given, and those it owns are released.""",
  "inputs configurations", "every format, small size and coordinate, including outside ones",
  "The project has almost no image tests.",
  "src/Image/Image.h src/Image/Image.cpp", [("per-format pixel addressing", "src/Image/Image.cpp")],
  "all formats x sizes x coordinates under ASan against a pixel map")

P("C41", "Images survive serialization",
  """An image serialized by any of the three forms and parsed again has the same size, format, flags and pixels, whatever its size; truncated, extended or inconsistent bytes, and those of an unknown format or of a size
  that cannot be held, are refused and leave an empty image; an image in use is not overwritten.""",
  "inputs", "every format, small size and truncation",
  "The project has no such test.",
  "src/Image/Image.h src/Image/Image.cpp", [("header and buffer", "src/Image/Image.cpp serialize()/deserialize()")],
  "all formats x sizes x truncations")

P("C42", "Arithmetic helpers are exact over their whole range",
  """Wrap-aware differences, range tests and limits, strict minimum and maximum equal their mathematical definition for every argument, including the extremes of every type. A UTC
  timestamp string from 1970 to 2099 is parsed to its exact epoch time, and one with an out-of-range field is refused (zero). Reference counters count exactly within their range, and the
  pRNG follows its seed's sequence and fills exactly the bytes asked for. The picture of a digest is the walk that its bytes prescribe.""",
  "inputs", "every pair of boundary-dense arguments of every type",
  "The unit tests use random arguments.",
  "src/CppPotpourri.h src/CppPotpourri.cpp", [("templated helpers", "src/CppPotpourri.h")],
  "boundary-dense enumeration against wider arithmetic")

P("C43", "Type codes, enum tables and flag sets look up exactly",
  """Looking up a type code, enum value, string, SI unit, metric prefix or line terminator yields exactly the entry defined for it (or the table's catch-all), and lookups by value and by
  name invert each other; setting, clearing or toggling a flag changes that flag and no other.""",
  "inputs histories", "every code, every name, every flag position and every short flag history",
  "The unit tests look a few up.",
  "src/EnumWrapper.h src/FlagContainer.h src/EnumeratedTypeCodes.h src/EnumeratedTypeCodes.cpp", [("static tables and bit masks", "src/EnumeratedTypeCodes.cpp")],
  "complete enumeration")

P("C44", "A multi-term search finds the earliest, then longest term, one after another",
  """runSearch() and continueSearch() of MultiStringSearch step through a subject from left to right: each returns 1 with lastMatch() at the earliest place at or after the end of the match before it where any of
  the search terms lies whole within the searched region, taking the longest term if several match there, and 0 with no lastMatch() when there is no more. Matches never overlap, needlesFound() counts them, and how the subject
  is fragmented makes no difference. Where a longer term might still match but is cut off by the end of the region, the search ends before that place; resolvedLength() is the offset up to which the region is settled, and
  unresolvedSearches() is non-zero exactly if that falls short of the end. A search in progress or finished refuses another with -2 until reset(), which leaves nothing of it; null and out-of-range parameters are refused
  and change nothing. The subject is never changed.""",
  "inputs histories", "every short subject, fragmentation and region against every small set of terms",
  "The unit test looks for one random needle; its table of known answers is never run.",
  "src/MultiStringSearch.h src/MultiStringSearch.cpp", [("concurrent search", "src/MultiStringSearch.cpp continueSearch()")],
  "complete enumeration of subjects and term sets over small alphabets against a reference search; call histories")

P("C45", "GPS sentences are each judged once by their content, however they arrive",
  """Feeding GPSWrapper a stream of NMEA text, in whatever pushes, has the effect of judging each complete non-empty line once, in order: sentencesParsed() and sentencesRejected() together count every one. A line is parsed
  if it starts with '$', is at most 143 characters, agrees with its checksum (if it has one), and is an RMC, GGA, GSA, GLL, GST, GSV or VTG sentence with all of its mandatory fields well-formed; any other line is rejected
  and changes nothing of the location. The callback is called exactly once for each parsed VTG sentence, with the location as known by then: position and UTC time from the last valid RMC (south and west negative, to 2e-6
  degrees), altitude and satellite count from GGA, dilution from GSA, bearing and speed from VTG; empty altitude and speed fields leave what was known. Every push is taken whole, complete lines are judged at the latest when more
  than 140 bytes are held, at most 1024 bytes of an unfinished line are kept, and noise, nulls included, never costs a sentence on another line. haversineDistance() is the great-circle distance in meters, the same both ways.""",
  "inputs schedules", "every cut of every short list of sentences, every corrupted byte, every shape of every field",
  "There is no unit test of it.",
  "src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.h src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp", [("accumulation and parsing", "src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp _attempt_parse()")],
  "all fragmentations, corruptions and field shapes against an independent reading of the sentences")
P("C46", "The log keeps every accepted line, whole and in order",
  """C3PLogger::print() accepts (0) exactly the messages whose severity is at most verbosity(), takes them over, and leaves any other with its owner. Each accepted message becomes one line: the time (10 columns) if printTime(), the
  name of the severity if printSeverity(), the tag if printTag() -- cut to 24 characters and right-justified in a column as wide as the longest tag printed so far -- then the message and a newline. Whatever the sink does -- be
  absent, refuse, or take any leading part of what it is offered -- no byte of an accepted line is lost, doubled or re-ordered: what the sink received, what fetchLog() handed over and what is still held are together exactly the lines
  accepted, in order. A print() with a sink that takes everything delivers all that was held and the new line. fetchLog() appends all that is held to the caller's buffer and leaves nothing. Each setting changes only itself. The
  formatting form of c3p_log() hands the platform exactly one message, fully rendered.""",
  "histories", "every history of lines, settings, fetches and partial takes by the sink up to a depth; all severities and limits",
  "There is no unit test of the logger; the tests use it without a sink.",
  "src/C3PLogger.h src/AbstractPlatform.cpp", [("formatting", "src/AbstractPlatform.cpp C3PLogger::print()"), ("backlog", "src/AbstractPlatform.cpp C3PLogger::_store_or_forward()"), ("fetch", "src/AbstractPlatform.cpp C3PLogger::fetchLog()")],
  "histories against a reference log, with a sink whose takes are chosen at each push")
P("C47", "An image area is copied and zoomed exactly, or refused without a trace",
  """ImageScaler::apply() answers -1 if either image is not allocated, -2 if the source area is not wholly inside of the source, and -3 if the scaled result does not fit into the target (its area, where one was given, or the
  image); a refusal changes no pixel of the target. With a whole-number scale k, each pixel of the source area becomes a square of k x k pixels of the target, beginning at the target area's corner; with a scale below one, pixel n of the
  result shows pixel floor(n / scale) of the source area in each direction. Colors are converted between the images' formats as getPixelAsFormat() does. No other pixel of the target is changed, and none of the source; without areas the
  whole of the source is drawn at the origin of the target. Source and target may be the same image if their areas do not overlap.""",
  "inputs", "every area and target position over small images, scales 1 to 3 and fractions, pairs of formats, coordinates at the edge of their range",
  "There is no unit test of the scaler.",
  "src/Image/ImageUtils.h src/Image/ImageUtils/ImageScalers.cpp", [("scaling", "src/Image/ImageUtils/ImageScalers.cpp ImageScaler::apply()")],
  "complete enumeration of areas, positions, scales and formats against a reference picture")
P("C48", "The trace keeps the newest points, and each path's time from start to stop",
  """While recording, leave_trace() keeps the place (file and line) and time of each point, the newest as many as the trace was made for; while not, it keeps nothing. serialize() renders the points oldest first, and then each path that
  was begun or has statistics. The path and action of a point are read from their own fields of the trace word. A PATH_START begins its path unless it is begun already; the next PATH_STOP of that path ends it, and adds the time since
  the start (across the wrap of the clock) to the statistics of the place where it stopped: executions, total, average, worst, best and last, per path and place of stopping. A PATH_STOP of a path not begun adds nothing, and no
  other action touches a path. reset() forgets points, paths begun and statistics. Text and CBOR report the same.""",
  "histories inputs", "every history of points, starts, stops, switches and resets up to a depth; every bit of the trace word; durations across the wrap",
  "There is no unit test of the trace; it is only compiled.",
  "src/TimerTools/C3PTrace.h src/TimerTools/C3PTrace.cpp", [("intake", "src/TimerTools/C3PTrace.cpp C3PTrace::leave_trace()"), ("timing", "src/TimerTools/C3PTrace.cpp TracePath::recordStop()"), ("report", "src/TimerTools/C3PTrace.cpp TracePath::serialize()")],
  "histories against a reference trace, reading the rendered report")

P("C49", "Logs, identities and service messages reach the right place at the other end",
  """Between two live links: every text given to writeRemoteLog() that it answers with 0 is in what the other end's poll() yields, whole, unchanged, once and in its turn, if that end allows log writes, and nothing is if it does not; a text is
  refused with a negative code when it is empty or there is no session, and either way the caller's buffer is consumed and nothing leaks. Messages for the application are unaffected. An end that has been told the other's identity (when a
  session begins, by its enquiry, or by the answer to one) knows it, type, handle and content, until the session is over, and does not know one it was not told; the first told in a session is kept. A message for a service is handed to the
  service registered for that code and to nobody else, with its payload and id, and the service's acknowledgement or reply is what is sent back; a message for a slot without a service disturbs nothing. Identities are judged with the build
  option that lets values hold them.""",
  "histories schedules inputs", "every schedule of writes, sends, polls and deliveries up to a depth; every history of identity changes, enquiries and sessions up to a depth; texts of every byte value and lengths to 1900",
  "The link test never writes to a remote log, never sets an identity and registers no service.",
  "src/M2MLink/M2MLink.cpp src/M2MLink/M2MService.cpp src/M2MLink/M2MMsg.cpp src/C3PValue/C3PValue.cpp", [("log", "src/M2MLink/M2MLink.cpp M2MLink::writeRemoteLog() / _handle_msg_log()"), ("who", "src/M2MLink/M2MLink.cpp M2MLink::_process_inbound()"), ("services", "src/M2MLink/M2MService.cpp"), ("identity values", "src/C3PValue/C3PValue.cpp C3PValueDecoder::_handle_tag()")],
  "two links over an in-memory stream against a model of who was told what")

P("C50", "Nothing a counterparty says in a well-formed frame can break a link",
  """Whatever message of a known code, with whatever flags, id and payload (CBOR of any kind or none, garbage, truncated, oversized or nested) arrives at a link: no memory outside the link's own is read or written, nothing leaks, and
  nothing the application lent the link is freed. A live link stays live, unless it is hung up, and afterwards still carries messages both ways; after a hangup it can be reset and used again. The application is handed exactly the
  application messages, with their flags and ids. What is sent back is at most one reply, of the same code and under the same id: exactly one to a connect, log or identity request, or to an application message its handler answered. Only
  a log message with a text, to a link that allows it, adds that text to the log. A frame at any point of the establishment does not prevent it, unless it hangs up.""",
  "inputs histories", "14 codes, all flags, some 660 payloads of every type of value, sequences of frames, every two bytes as payload or value, and every point of establishment",
  "The link tests only ever hear their own library's messages.",
  "src/M2MLink/M2MLink.cpp src/M2MLink/M2MMsg.cpp src/C3PValue/C3PValue.cpp", [("dispatch", "src/M2MLink/M2MLink.cpp M2MLink::_churn_inbound()"), ("log", "src/M2MLink/M2MLink.cpp M2MLink::_handle_msg_log()"), ("payload", "src/M2MLink/M2MMsg.cpp M2MMsg::getPayload()")],
  "frames spliced into the stream to a live link, with memory checking, then a test of the session")
P("C51", "Text in any font is set glyph by glyph and measured by where it falls",
  """Text written to an image with any font (built in, shipped or supplied), size, colour and wrap setting, character by character or as a string, puts exactly each character's glyph at the cursor: offset, scaled, clipped to the image,
  and nothing else changes. The cursor advances by the glyph's width, a newline starts the next line, a glyph that would not fit the line is set at the start of the next when wrapping is on, and characters the font does not have, and
  carriage returns, set nothing. The bounds given for a text at a place are exactly the smallest rectangle around what would be set there, whatever glyphs overhang or are empty, and asking for them changes nothing.""",
  "inputs", "every code of all 50 shipped fonts, all texts of up to 4 (6) of nine characters in 4 fonts, two of them with odd glyphs",
  "The image tests print a few strings for a human to look at.",
  "src/Image/Image.cpp src/Image/Image.h src/Image/Fonts", [("setting", "src/Image/Image.cpp Image::writeChar()"), ("glyphs", "src/Image/Image.cpp Image::drawChar()"), ("bounds", "src/Image/Image.cpp Image::getTextBounds()"), ("measure", "src/Image/Image.cpp Image::_char_bounds()")],
  "a reference setter of glyphs, compared by pixel, cursor and bounds")
P("C52", "A graph plots every sample at its place and stays inside of its area",
  """A graph of integer or floating-point samples drawn to an area of at least 3x3 changes no pixel outside of that area, and none at all if the area is not wholly in the image. Within it there are the ground, an axis along the left
  and lower edges, and, if the trace is enabled and has samples, one point per sample, as many as the plot is columns wide, left to right: the top of the range at the top of the plot, the bottom of the range at its floor, the others in
  proportion (to the row), never one above another that is greater. The reported range spans the samples shown. A curve (of integers) joins successive points without gaps or excursions. A sample that is accented gets a square mark, cut to
  the plot, a rule over the whole height and a label. The samples are neither changed nor read beyond their count.""",
  "inputs", "all lists of up to 4 (5) samples of 5 or 6 values in 16 small areas at two places, scaled or not; shapes of up to 340 samples in areas to 300x300; marks at 18 samples and 14 heights",
  "No test draws a graph.",
  "src/Image/ImageUtils/ImageGraph.cpp src/Image/ImageUtils/ImageGraph.h", [("range", "src/Image/ImageUtils/ImageGraph.h ImageGraphTrace::findBounds()"), ("points", "src/Image/ImageUtils/ImageGraph.cpp ImageGraph::drawGraph()")],
  "every small graph and shapes of large ones against the geometry of the plot, pixel by pixel")
P("C53", "A plot of bytes shows each in a square of its own, all within the area",
  """A linear or Hilbert plot of a value's bytes either draws all of them or is refused and changes nothing. It never changes a pixel outside of the area given, and is refused if the area is not in the image or has fewer pixels than
  there are bytes, or if it has no image or styler. Drawn, each byte has a square of its own, all of one size, wholly in the area, in the colour that the styler gives for it; the linear plot runs along the rows from the upper left, and
  is drawn whenever there is a pixel for each byte (unless the area touches the image's right or lower edge); in the Hilbert plot successive bytes are neighbours. A map with room for two coordinates per byte gets the corner of each square,
  one with less is left alone. Changes of the bytes or the area are drawn without being forced. Under the fencing styler a byte has the colour of the last fence at or before it; under the others its grey level.""",
  "inputs", "areas of 1x1 to 24x24 (40x40) with every number of bytes; 9 areas at 121 places in and outside of an image; areas to 300 (512) pixels a side; 4 changes in a row to one plotter; 4 fences in a row",
  "No test draws a plot.",
  "src/Image/ImageUtils/BlobPlotter.cpp src/Image/ImageUtils/BlobPlotter.h", [("area", "src/Image/ImageUtils/BlobPlotter.cpp BlobPlotter::apply()"), ("curves", "src/Image/ImageUtils/BlobPlotter.cpp _curve_render()"), ("fences", "src/Image/ImageUtils/BlobPlotter.cpp BlobStylerExplicitFencing::getColor()")],
  "every small area with every number of bytes, pixel by pixel: who was drawn where")
