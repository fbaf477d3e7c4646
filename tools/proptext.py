NOTE = ("Sound for the interpreted fragment: every obligation is decided for all inputs on the MIR of the current tree; constructs the interpreter does not model make an obligation undecided (reported, not a violation). "
        "Trusts rustc's lowering, the models of std and crc32fast calls, and that the harness declarations are representative of what users declare.")
AI = "abstract interpretation of MIR (symbolic values over all paths)"
def P(id, title, statement, over, quant, why, files, mech, tech, note=NOTE):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, tech=tech, note=note)
B = "brec/src/"; M = "brec_macros/src/"
PROPS = [
P("C01", "Packet header has one wire layout, shared by writer and every reader",
  "The packet header is a fixed sequence of signature, total size, blocks length, payload-presence flag and header checksum, with little-endian numbers at fixed offsets. Writing a header produces exactly that sequence, and each way of reading one (plain, seekable, buffered, from a slice) takes every field from the offset the writer put it at, so reading what was written gives the same header back.",
  ["inputs"], "every header value and every byte sequence offered to a header reader", "The tests round-trip random packets through matching code; they cannot show that every reader and the writer agree on every field for every value, and symmetric mistakes cancel out.",
  [B+"packet/header/mod.rs", B+"packet/header/read.rs", B+"packet/mod.rs"], [("header writers and readers", B+"packet/header"), ("slice lookup of a packet", B+"packet/header/read.rs")], AI + " against a committed layout"),
P("C02", "A packet header is accepted only with its signature and a matching checksum",
  "Every way of reading a packet header rejects bytes that do not start with the packet signature, and rejects a header whose stored checksum differs from the checksum of the size, blocks length and payload flag it decoded. A freshly made header stores that checksum, so it is always accepted.",
  ["inputs"], "every byte sequence offered as a header", "Tests corrupt a few random bytes; they cannot show that no field is left out of the check on some read path.",
  [B+"packet/header/mod.rs", B+"packet/header/read.rs"], [("signature comparison and CRC recomputation", B+"packet/header/read.rs")], AI + "; required path facts at every success exit"),
P("C03", "A block's generated encoder and all its decoders agree on every field",
  "For every declared block, the encoded form is its signature, its fields in declaration order in little-endian fixed-width form, and a checksum; the plain, seekable, buffered, slice and vectored code all use that same layout. So a block decodes to the values that were encoded, whichever supported field types it has and whichever read or write call is used.",
  ["inputs", "programs"], "every field value of every block a user can declare from the supported field types", "Tests round-trip random values of a fixed set of blocks through some reader/writer pairs; declarations and pairs outside that set are never generated.",
  [M+"codegen/read/block.rs", M+"codegen/write/block.rs", M+"codegen/base/block.rs", M+"entities/ty/mod.rs"], [("code generation of block readers and writers", M+"codegen")], AI + " of the code the macros generate for a representative set of declarations"),
P("C04", "A block is accepted only with its own signature and a matching checksum",
  "Every decoder of a declared block rejects bytes with another signature and bytes whose stored checksum differs from the checksum of the field contents read; every encoder stores exactly that checksum, covering all fields. Blocks that differ in name or fields have different signatures.",
  ["inputs", "programs"], "every block declaration, every byte sequence", "Tests flip random bytes in some blocks; they cannot show that all decoders check all fields of all block shapes.",
  [M+"codegen/read/block.rs", M+"codegen/base/crc.rs", M+"entities/block/mod.rs", B+"traits/props/mod.rs"], [("generated signature and CRC checks", M+"codegen/read/block.rs")], AI + "; required path facts at every success exit"),
P("C05", "A try-read that does not succeed leaves its seekable source where it was",
  "When reading a header, block, payload or whole packet from a seekable source reports that more data is needed or that the data is not what was asked for, the source is back at the position it had before the call. Only a success, or a failure of the source itself, may leave it elsewhere.",
  ["inputs"], "every content and length of the source, and every truncation point", "Tests try a handful of truncations and mostly look at the returned status, not at the position left behind on each failure path.",
  [B+"packet/header/read.rs", B+"packet/read.rs", B+"payload/header/read.rs", B+"payload/header/sreader.rs", B+"traits/read/mod.rs", M+"codegen/read/block.rs", M+"collector/blocks/read.rs", M+"collector/payloads/read.rs"], [("position saved and restored around each attempt", B+"packet/read.rs")], AI + "; stream position tracked as a typestate along every path"),
P("C06", "Payload header format: one length-prefixed layout for every reader and the writer",
  "A payload header is written as signature length, signature bytes, checksum length, checksum bytes and a 32-bit little-endian payload length, and every way of reading one (plain, seekable, buffered) decodes exactly that, so its reported size equals the bytes it occupies and written headers are read back unchanged. Signature and checksum lengths a payload may use are restricted to the supported set, and anything else is refused rather than truncated.",
  ["inputs"], "every payload signature and checksum length, every byte sequence offered as a payload header", "Tests use the few signature and checksum lengths of the built-in payloads and never a header whose parts disagree.",
  [B+"payload/header/mod.rs", B+"payload/header/read.rs", B+"payload/header/sreader.rs", B+"payload/mod.rs"], [("payload header readers and writer", B+"payload/header")], AI + " against a committed layout"),
P("C07", "A payload is handed out only if its checksum matches the bytes it came from",
  "Whatever way a payload is read (plain, seekable, buffered), exactly the number of bytes its header announces is taken, decoded, and accepted only when the checksum of the decoded payload equals the one in the header; a signature that is not the requested payload's is refused. The built-in text and bytes payloads decode to the bytes that were written.",
  ["inputs"], "every payload header and body", "Tests round-trip good payloads; a reader that skipped the comparison on one path, or took a different number of bytes, would pass them.",
  [B+"payload/mod.rs", B+"payload/default", B+"traits/read/mod.rs", M+"codegen/read/payload.rs", M+"collector/payloads"], [("payload extraction and checksum comparison", B+"payload/mod.rs")], AI + "; required path facts at every success exit"),
P("C28", "Hooks run: what is decoded passes its hook before anyone gets it",
  "Every payload a reader gives out (plain, seekable, buffered) has had its after_decode hook run on it, exactly the value that is given out, after the checksum of what was decoded was compared with the header's; when the hook fails the payload is refused with that failure. before_encode is likewise to run before a payload is encoded by any writer (recorded as a finding: no writer runs it).",
  ["inputs"], "every payload type with hooks, every payload header and body", "The payload types of the tests have hooks that do nothing, so whether and when they run is invisible to them.",
  [B+"payload/mod.rs", B+"traits/read/mod.rs", B+"traits/write/mod.rs"], [("payload hooks", B+"payload/mod.rs")], AI + "; reachability between the decoding call, the checksum call, the hook and the exits that give the value out"),
P("C08", "A written packet is the header, its blocks in order, then the payload, and the header's lengths say so",
  "Every way of writing a packet (all at once, partial write, vectored) emits the packet header, every block in order, and, if there is a payload, the payload header and the payload body. The header's total size, blocks length and payload flag are those of exactly the bytes that follow, so the next packet in a stream starts where the header says.",
  ["inputs"], "every list of blocks and optional payload", "Tests write random packets and read them back with the same library; a length that both sides miscount, or a writer variant that orders parts differently, is not seen.",
  [B+"packet/mod.rs", B+"packet/write.rs", B+"packet/header/mod.rs", B+"payload/mod.rs", B+"traits/write/mod.rs"], [("packet writers and header totals", B+"packet/write.rs")], AI + "; symbolic byte sequence of every writer compared with the others and with the header"),
P("C09", "Packet readers take exactly what the header announces",
  "Every way of reading a packet (from a stream, trying on a stream, trying on a buffered stream) reads blocks from exactly the blocks length bytes the header announces, starts the payload header right behind them, the payload right behind the payload header, and reads a payload if and only if the header's payload flag is set. Blocks are kept in their order, none dropped. A reader which tries answers not enough data (never a packet) while fewer bytes are present than the header announces.",
  ["inputs"], "every stream content and every header", "A reader that skips, drops or misplaces a part shows only for particular combinations of block count, payload flag and how much of the packet has arrived.",
  [B+"packet/read.rs", B+"packet/mod.rs"], [("packet readers", B+"packet/read.rs")], AI + "; stream position and byte source of every part of the result compared with the header's fields"),
P("C10", "The packet buffer reader accounts for every byte of the source",
  "For every call of PacketBufReader::read, whatever the source delivers and however it is split: every byte taken from the source, together with the bytes retained by the previous call, is either handed to the ignored rules, part of the packet delivered, skipped or reported broken, or retained for the next call, in the order they arrived; nothing is lost or used twice, not even when the call fails.",
  ["inputs", "histories"], "every source content, every split into reads, every state left by earlier calls", "How the bytes are split over reads decides which of some thirty paths runs; tests see a few splits of valid packets.",
  [B+"packet/reader.rs"], [("stream reader of mixed data", B+"packet/reader.rs")], AI + "; byte ledger: lengths and contents before and after solved as linear expressions at every exit"),
P("C11", "Rules decide which packets are delivered, and each callback sees what it is meant to judge",
  "A packet is delivered (PacketBufReader: Found; storage look-up with filters: Accepted) only if the blocks filter, the payload filter (when there is a payload) and the packet filter all accepted it, and is reported skipped or denied only if one of them refused it. Each filter's answer is its callback's answer on the same blocks, payload bytes or packet, true when no such rule was added. The payload is not decoded unless both earlier filters accepted. Every ignored rule gets the ignored bytes. At most one rule of each kind can be added; removing a rule removes that kind only.",
  ["inputs"], "every set of rules, every callback, every packet", "Which filter runs on which branch (payload or none, blocks or none, static or dynamic callback) is a product no test enumerates.",
  [B+"packet/rules.rs", B+"packet/reader.rs", B+"packet/mod.rs"], [("rules and filtering", B+"packet/rules.rs")], AI + "; facts required at every delivering exit, edges cut in the exploded graph"),
P("C12", "Storage slots keep their format, their checksum and the offsets their lengths imply",
  "A slot on disk is the slot signature, the capacity (8 bytes, little endian), one 8 byte length per place, and a CRC-32 over capacity and lengths; its size is 20 + 8 * capacity. Reading accepts a slot only if the signature matches, capacity many lengths are taken in order, and the checksum matches exactly capacity and lengths. A slot that was made or changed by the library carries the checksum of its current contents; an insertion fills the first free place and nothing else. The n-th packet of a slot lies at the size of the slot plus the lengths before it; the first free place, the count and the width follow from the lengths likewise.",
  ["inputs", "histories"], "every slot, capacity, place and history of insertions", "Tests fill small storages; an offset or checksum that is wrong for the last place, an empty slot or another capacity is not met.",
  [B+"storage/slot/mod.rs", B+"storage/slot/read.rs", B+"storage/slot/write.rs", B+"storage/slot/header.rs"], [("storage slots", B+"storage/slot/mod.rs")], AI + "; loops over the lengths summarised as sequences and partial sums, compared with the committed format"),
P("C13", "Inserting a packet puts its exact bytes where the slots say they are",
  "WriterDef::insert serialises the packet into an empty buffer before anything is changed, enters the length of exactly these bytes into the slot with the first free place, writes that (updated) slot at the offset it was found at, writes the bytes in full at the place computed before the entry was made, flushes, and only then reports success; it writes nothing else. When no slot has a free place, an empty default slot is added behind the others. The place for the next packet is found by walking the slots in order, passing over full slots only, each at the offset of the one before it plus that slot's size and the width of its packets. Opening a storage (writer and reader) reads the slots at exactly these offsets and keeps every one of them; the load ends with success only where a slot could not be read for lack of data.",
  ["inputs", "histories"], "every history of insertions and openings, every number of slots and lengths", "Offsets are sums over all earlier slots and lengths; tests use one writer, few slots and equal packets.",
  [B+"storage/writer/mod.rs", B+"storage/locator.rs", B+"storage/reader/mod.rs"], [("writer", B+"storage/writer/mod.rs"), ("place of the next packet", B+"storage/locator.rs")], AI + "; offsets compared as linear terms over slot sizes and widths, order and coverage of the I/O events decided on the exploded graph"),
P("C14", "The storage reader finds each packet by its index, walks them in order and counts them right",
  "Packet n is looked for in slot n / 500 at place n % 500, and read at the sum of size and width of all slots before plus the offset inside the slot; None is returned exactly when there is no such slot or the place is empty. nth_filtered reports Accepted and Denied as the filters decided. The iterators take the slots in order, read exactly the bytes of each slot's packets, give packets out one after the other without leaving any, end only at the end of the slots, and leave out denied packets only; seek(n) begins with packet n and goes on with the following slot. range(from, len) asks for from, from + 1, ... and gives out at most len packets. A packet that was read, accepted or denied is consumed as a whole. count() is 500 per full slot plus the used places of the current one. reload() reads the last known slot again where it lies, appends what lies behind it, looks for the free place again and returns the number of packets added.",
  ["inputs", "histories"], "every index, every number of slots and packets, every history of insertions between reloads", "Errors show only with several slots (more than 500 packets), at slot boundaries, or for reloads between particular states.",
  [B+"storage/reader/mod.rs", B+"storage/reader/iters.rs"], [("index arithmetic and reload", B+"storage/reader/mod.rs"), ("iterators", B+"storage/reader/iters.rs")], AI + "; positions as linear terms with sums over the slots before, order and coverage of events on the exploded graph"),
P("C15", "A storage file has one writer at a time, and opening it destroys nothing",
  "FileWriterDef::new gives out a writer only after an exclusive lock was granted on a lock file that follows from the name of the storage alone; the storage is opened, read and changed only after that; the locked file is kept inside the writer, nothing gives the lock back or removes the lock file while the writer lives. Opening neither truncates nor replaces an existing file. When the lock is refused, new() fails at once with FileIsLocked if no timeout was given, waits only if one was, and reports TimeoutToWaitLockedFile only when it has passed. FileStorageOptions hands over exactly the name, timeout and interval that were set, waiting for nothing by default; insert hands the packet to the storage and reports success only if it did.",
  ["schedules", "inputs"], "every interleaving of processes opening the same storage, every timeout and interval", "Tests run two threads with sleeps; the window between check and use, or a lock dropped early, shows only in particular interleavings.",
  [B+"storage/writer/locker.rs"], [("lock and open", B+"storage/writer/locker.rs")], AI + "; lock as a typestate: edges on which it is granted cut from the exploded graph, uses of the storage must become unreachable"),
P("C22", "A signature is a fixed function of the declaration, the same in every build and program",
  "The signature of a block is the CRC-32 (little endian) of its name and of the name and type of every field in order, the injected signature and checksum fields included; that of a payload the CRC-32 of its full name (path segments and name, first letters in upper case); the built-in payloads use their type names. Value and type report the same signature. So what one program writes, another program with the same declaration recognises, and declarations that differ in name, field names, field types or field order are told apart.",
  ["programs", "inputs"], "every declaration of the harness family: all field types, all adjacent pairs of kinds, 120 fields, names that generated code uses itself, payloads with and without path", "Tests only see that one build reads its own output; that holds for any signature, also for one that drops the field types or changes between builds.",
  ["brec_macros/src/entities/block/mod.rs", "brec_macros/src/entities/payload/mod.rs", B+"payload/defaults"], [("block signature", "brec_macros/src/entities/block/mod.rs"), ("payload signature", "brec_macros/src/entities/payload/mod.rs")], "constants in the code generated for the harness declarations, read from its MIR, compared with an independent computation of the documented formula"),
P("C23", "The storage sensor neither loses a growth of the file nor wakes without reason",
  "Sensor::emit sends a wake only if the file is larger than what was noted as processed and only after it took the turn atomically (flag false to true); whoever takes the turn sends the wake, without blocking, carrying the size of the file; a wake still waiting is no error, a closed channel is. Sensor::processed notes the processed length (never lowering it, also against concurrent calls), then lets the next wake through, then looks for growth again, in this order and always. A new sensor starts with the turn free, nothing processed, room for a wake in the channel, and passes changes of the file on.",
  ["schedules"], "every interleaving of change notifications and processed() calls", "A lost wake needs a change between two particular instructions; tests with real files and sleeps cannot hit it on purpose.",
  [B+"storage/observer/sensor/mod.rs"], [("wake protocol", B+"storage/observer/sensor/mod.rs")], AI + "; order and guards of the atomic operations decided on the exploded graph"),
P("C16", "Malformed or truncated input is refused, never answered by a panic",
  "Whatever bytes a source, buffer or storage file holds and wherever it is positioned, decoding them (headers, blocks, payloads, packets, slots, slot chains, the packet reader, filters, storage readers) does not panic by indexing or slicing out of bounds, by subtracting below zero, or by unwrapping a conversion or error that the input determines; it returns an error or asks for more data. (Not covered: overflow of additions, allocation size, panics inside user code and bincode.)",
  ["inputs"], "every byte sequence, length and position of the source, in every decoder of the library and of the generated code", "Which field values and truncation points meet an unchecked index or subtraction cannot be sampled: the combinations are about sizes up to 2^64.",
  [B+"packet", B+"payload/header", B+"storage", M+"codegen/read", M+"collector"], [("every decoder", B)], AI + "; every bounds, slice, subtraction and unwrap site becomes a linear-arithmetic obligation (Fourier-Motzkin); an alarm needs an integer witness over input-determined unknowns whose path conditions reach the site"),
P("C17", "A failed I/O operation is never passed over",
  "Whenever a read, seek, write or flush of the underlying source, sink or file fails, the library function or generated reader or writer that issued it ends in an error, not in success, in 'not enough data', in the end of an iteration or in a later result; and the error it reports is the I/O failure, not another one. (A mere interruption may be tried again.)",
  ["fault_sequences"], "every I/O operation of every reader, writer, iterator and storage function, failing at any moment", "Tests use sources that do not fail; which of some hundred operations fails, and when, cannot be sampled.",
  [B+"packet", B+"storage", B+"traits", M+"codegen"], [("every function that performs I/O", B)], AI + "; from the failure edge of every I/O call no success exit may be reachable in the exploded graph"),
P("C18", "Vectored writing emits exactly the slices, once and in order",
  "write_vectored_all writes all bytes of all slices in order and nothing else, whatever sizes the sink accepts per call: after a partial write it goes on exactly where it stopped, also within a slice, empty slices do not stop it, a sink that accepts nothing is an error, and single vectored writes report what was written. The slices of a block, payload and packet are the bytes their plain writers write.",
  ["inputs", "schedules"], "every list of slices and every sequence of partial writes", "A sink that accepts everything, as in the tests, never takes the resume path; which split points break it cannot be sampled.",
  [B+"traits/write/slices.rs", B+"traits/write/mod.rs"], [("resume after a partial write", B+"traits/write/slices.rs")], AI + "; resume offsets decided by enumerating the orderings of sizes consistent with each path"),
P("C19", "The generated Block and Payload enumerations do exactly what the variant's own type does",
  "Reading a Block or Payload tries the declared types, hands out the first that accepts in the variant of its own type, passes on its shortage and every failure other than a foreign signature, refuses with a signature mismatch only if all refused, and shows each type the same source from the same position. Writing, slicing, encoding, sizing, checksumming and identifying a Block or Payload is delegated to the contained value, by the operation of the same name.",
  ["inputs", "programs"], "every declared set of blocks and payloads, every byte sequence", "Tests dispatch over a few declared types with well-formed input; an outcome of one variant that is lost or attributed to another shows only for particular types at particular places in the list.",
  [M+"collector/blocks/read.rs", M+"collector/payloads/read.rs", M+"collector/blocks/write.rs", M+"collector/payloads/write.rs"], [("generated dispatch", M+"collector")], AI + " of the code the macros generate; per-attempt outcome facts at every exit"),
P("C21", "The two-part reader yields each byte of the preloaded and the inner source exactly once, in order",
  "BufferedReader presents preloaded bytes followed by the inner source as one stream: reading, peeking and consuming give out each byte once and in order, never lose or repeat one (also when the inner source fails), its length and emptiness are those of what is left, refill only moves bytes, and consumed() counts exactly the bytes given out.",
  ["inputs", "schedules"], "every sequence of read, fill_buf, consume and refill calls with every split of the bytes", "Which side of the boundary a call ends on depends on sizes and on how much the inner source delivers; tests take a few.",
  [B+"traits/read/reader.rs"], [("preloaded bytes before inner ones", B+"traits/read/reader.rs")], AI + "; a byte ledger (given out + kept = taken) checked at every exit"),
P("C20", "A borrowed block cannot outlive the buffer it was read from",
  "A block, packet or slice handed out as a view of a buffer can be used only while that buffer is alive and unchanged; a program that keeps it longer does not compile.",
  ["programs"], "every program using the zero-copy readers", "Tests use the views while the buffer lives.",
  [B+"traits/read/mod.rs", M+"codegen/read/block.rs"], [("lifetime of referred blocks", M+"codegen/read/block.rs")], ""),
P("C24", "A crash during an insertion leaves a storage that opens with every earlier packet",
  "Whatever write of an insertion is the last to reach the disk, the storage opens again, every packet inserted before is found unchanged, and the interrupted one is either whole or absent.",
  ["crash_points"], "every crash point of every insertion", "Tests do not crash.",
  [B+"storage/writer/mod.rs"], [("order of slot and packet write", B+"storage/writer/mod.rs")], ""),
P("C25", "After damaged bytes the stream reader finds every later intact packet",
  "However a stream is damaged, once the damage is past, every following intact packet is delivered after finitely many reads.",
  ["inputs", "histories"], "every damage and every split of the stream", "Tests insert litter between valid packets only.",
  [B+"packet/reader.rs"], [("resynchronisation", B+"packet/reader.rs")], ""),
P("C26", "Payloads of user types decode to the value that was encoded",
  "Encoding a declared payload and decoding the bytes yields an equal value, for every value of every type bincode accepts.",
  ["inputs", "programs"], "every payload type and value", "Tests round-trip a handful of types.",
  [M+"codegen/base/payload.rs"], [("bincode codec of payloads", M+"codegen")], ""),
P("C27", "Memory and time for a hostile input stay proportional to its size",
  "Reading a header, slot or packet that announces a huge size does not allocate or loop by the announced size before the bytes have arrived.",
  ["inputs"], "every announced size", "Tests do not announce sizes that are absent.",
  [B+"payload/mod.rs", B+"storage/slot/read.rs"], [("allocation by announced size", B+"storage/slot/read.rs")], ""),
]
NOT_APPLICABLE = [
 ("C20", "A lifetime property is decided by the borrow checker, and here an unsafe transmute in the generated read_from_slice (trait signature `Self: 'a`) lets a referred block outlive its buffer: the property does not hold at the pinned commit, and holding it needs a breaking change of the trait; no rule beyond that single construct would remain to be checked."),
 ("C24", "Which writes survive a crash depends on the file system and the device; the insertion writes the slot before the packet without fsync, so no order argument over the source can establish it (the order itself is decided in C13)."),
 ("C25", "A liveness property over the history of calls and the splits chosen by the source: needs a measure that decreases over unboundedly many calls, beyond the per-call ledger decided in C10."),
 ("C26", "The codec is bincode and serde, derived code in external crates over arbitrary user types; no static argument over this repository's source bounds it (what brec adds around it is decided in C07)."),
 ("C27", "Bounds on runtime quantities (allocation, iterations) that the format leaves to the announced size; the code allocates by announced size in several places by design (payload_len up to 4 GiB, slot capacity), so the property does not hold and cannot be repaired without new limits in the format."),
]
