import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs=None,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=None
    P.append(d)
N="nmdc/*.go".replace("*","%s")
p("P01","Decoding bytes from a peer never panics",
 "Whatever bytes a remote peer sends, reading and decoding them as NMDC or ADC (lines, packets, every built-in message type, identifiers, hashes, and the lock-to-key computation on a received lock) either yields a value or returns an error. It never panics: no out-of-range index or slice, nil dereference, failed type assertion, write past a fixed-size destination or explicit panic is reachable.",
 ["inputs"],"every byte string presented to any exported decoding entry point, with or without a text decoder",
 "tests decode a few hundred well-formed lines; one unguarded index on a malformed line is a remote crash of a hub or client, and the space of malformed lines is unbounded",
 ["nmdc/reader.go","nmdc/types.go","nmdc/utils.go","nmdc/msg_*.go","nmdc/msg_lock.go","adc/packets.go","adc/marshal.go","adc/types.go","adc/files.go","adc/types/types.go","tiger/tiger.go","keyprint/keyprint.go"],
 [("length and separator guards before every index/slice","all Unmarshal* methods"),("size check before base32 decode","tiger/tiger.go"),("reflection by kind","adc/marshal.go")])
p("P02","Decoding any finite input terminates",
 "Decoding a finite message always finishes: every loop in the decoding code either consumes input, shrinks what is left to parse, or counts toward a bound on each iteration. No input can make a decoder spin forever.",
 ["inputs"],"every finite byte string and every loop on a decoding path",
 "a hanging input is only seen if a test happens to contain it; tests sample a handful of shapes per parser",
 ["nmdc/msg_chat.go","nmdc/msg_user.go","nmdc/utils.go","adc/packets.go","adc/marshal.go","tiger/tth.go","lineproto/reader.go"],
 [("loop variables advance on every path around the loop","parser loops"),("each read loop iteration performs a read","lineproto/reader.go")])
p("P03","Encoding and local computations never panic",
 "Encoding any built-in message value (including zero values and empty text), deriving a key from a lock, hashing, intersecting feature sets and similar local operations on non-nil arguments never panic; impossible values are reported as errors.",
 ["inputs"],"every value of every built-in message type, with or without a text encoder",
 "tests encode only typical messages; empty payloads and degenerate field values are reachable by relaying peer-controlled data",
 ["nmdc/message.go","nmdc/msg_*.go","adc/marshal.go","adc/packets.go","tiger/tth.go","nmdc/extensions.go","adc/types.go"],
 [("payload-length bookkeeping around the trailing separator","nmdc/message.go MarshalTo, adc/packets.go MarshalPacketADC"),("guards on empty slices","tiger/tth.go, nmdc/msg_lock.go")])
p("P04","Text in an NMDC message cannot forge protocol framing",
 "When an NMDC message is encoded, text supplied by a user (names, chat text, descriptions, search patterns, paths, errors, and so on) never contributes a raw '|' or '$' or NUL byte to the output, in any text encoding; names additionally never contribute raw '<', '>', CR, LF or TAB. The encoded message ends with exactly one '|' delimiter, which is the only one in it provided protocol tokens such as addresses contain none.",
 ["inputs","configurations"],"every value of every text field of every NMDC message type, and every text encoder including multi-byte ones whose trail bytes collide with '|'",
 "tests escape a few strings in UTF-8 and CP1251; injection needs particular bytes in a particular field under a particular encoding",
 ["nmdc/types.go","nmdc/utils.go","nmdc/message.go","nmdc/msg_*.go"],
 [("encode, then escape","nmdc/types.go String.MarshalNMDC, Name.MarshalNMDC"),("escape tables","nmdc/types.go"),("every text field goes through String or Name","nmdc/msg_*.go")])
p("P05","Text in an ADC message cannot forge protocol framing",
 "When an ADC message is encoded, user-supplied text in any positional, named or status field never contributes a raw space or newline to the output, so a value can neither end the message nor start a new field. Every encoded packet ends with exactly one newline and has none before it provided raw payloads and identifiers contain none.",
 ["inputs"],"every text value in every field of every built-in ADC message and packet kind",
 "tests escape spaces in a few fields; an injection needs a separator in a field the tests leave plain",
 ["adc/marshal.go","adc/messages.go","adc/types.go","adc/files.go","adc/packets.go"],
 [("escaper table","adc/marshal.go"),("marshalValue, String.MarshalADC, Path, Status, GetRequest escape every string","adc/*.go")])
p("P06","NMDC text is unescaped, converted to UTF-8 and validated on decode",
 "Every human-readable text value an NMDC decoder hands to the application has been unescaped, then converted by the connection's text decoder when one is set, then checked to be valid UTF-8; text that is not valid UTF-8 is an error. Raw wire bytes are never delivered as text.",
 ["inputs","configurations"],"every text field of every NMDC message, every byte string and every text decoder",
 "tests decode few escaped or non-UTF-8 values, and only in some fields; a field that skips a stage looks right for ASCII",
 ["nmdc/types.go","nmdc/msg_*.go"],
 [("String.UnmarshalNMDC / Name.UnmarshalNMDC pipeline","nmdc/types.go"),("fields stored from the decoded value","nmdc/msg_*.go")])
p("P07","ADC text is unescaped on decode in every field that is escaped on encode",
 "Every text value an ADC decoder hands to the application (positional, named, list, status, path and key-value fields) has had the escapes for space, newline and backslash undone exactly once. The escapes the decoder undoes are exactly those the encoder applies.",
 ["inputs"],"every text field of every ADC message and every value",
 "tests round-trip few escaped values; a field that keeps wire escapes looks right for text without spaces",
 ["adc/marshal.go","adc/messages.go","adc/types.go","adc/files.go"],
 [("unescape in unmarshalValue, String, Status, GetRequest","adc/*.go"),("escaper and unescaper tables are inverse","adc/marshal.go")])
p("P08","Decoded messages own their data",
 "A message or error returned by a decoder never shares memory with the read buffer or the caller's input, so it stays intact when the next line is read or the input is reused. The only exceptions are the interfaces documented as returning raw, borrowed data (raw lines and raw packets).",
 ["inputs","histories"],"every message type, every input, and every later read on the same connection",
 "tests compare a message right after decoding it, before the buffer is reused",
 ["nmdc/message.go","nmdc/reader.go","nmdc/msg_*.go","adc/messages.go","adc/packets.go","adc/types.go"],
 [("copy in RawMessage decoders","nmdc/message.go, adc/messages.go"),("string conversion copies","all decoders")])
p("P09","Encoding and decoding do not modify their arguments",
 "Encoding a message never modifies the message or anything it refers to, so one message may be sent to many peers concurrently; decoding never writes into the caller's input bytes; hashing leaves never changes the leaves; combining feature or extension sets returns a new set and leaves both operands as they were.",
 ["inputs","schedules"],"every message value, every input, every interleaving of encoders sharing a message",
 "tests encode a message once and compare output only; a mutation is invisible without sharing",
 ["nmdc/msg_*.go","adc/marshal.go","adc/packets.go","tiger/tth.go","adc/types.go","nmdc/extensions.go"],
 [("encoders write only to the output buffer and locals","Marshal* methods"),("TreeHash deep-copies leaves","tiger/tth.go"),("Clone before update","adc/types.go, nmdc/extensions.go")])
p("P10","Connections share no mutable state",
 "Apart from registering message types at start-up, no library call writes package-level state: encoding, decoding, hashing, key derivation and address parsing on independent connections may run concurrently without synchronisation.",
 ["schedules"],"every pair of concurrent calls on different connections",
 "tests are single-threaded per call and the race detector sees only the interleavings it runs",
 ["nmdc/*.go","adc/*.go","lineproto/*.go","tiger/*.go","keyprint/*.go"],
 [("package-level variables are written only during init and registration","nmdc/message.go, adc/messages.go, nmdc/types.go")])
p("P11","Connection readers and writers survive any sequence of calls",
 "Starting from a freshly constructed line reader or writer, no sequence of their operations (including calls after errors, repeated Close, enabling compression twice or with a bad level, reads that return no data) panics, whatever the underlying connection returns.",
 ["histories","fault_sequences"],"every finite sequence of calls with every outcome of the underlying reads and writes",
 "tests drive one or two happy sequences; failures need an I/O fault at a specific state",
 ["lineproto/reader.go","lineproto/writer.go"],
 [("mode flags and the objects they stand for change together","EnableZlib, EnableZlibLevel, DisableZlib, Close"),("closed checks at every entry","lineproto/*.go")],
 state=[("zlibOn/zlib/compressed","compression mode and its stream objects","lineproto"),("off/buf","read window","lineproto/reader.go")])
p("P12","A failed or closed writer stays failed",
 "Once any write, flush, compression step or write hook on a connection writer has failed, or the writer was closed, every later operation returns an error and nothing more is sent on the underlying connection. The first error is the one that is kept.",
 ["histories","fault_sequences"],"every sequence of writer calls and every point at which the underlying connection fails",
 "tests never inject a failing connection in the middle of a sequence except for one timeout",
 ["lineproto/writer.go","nmdc/writer.go","adc/writer.go"],
 [("sticky error field tested first in each operation","lineproto/writer.go")],
 state=[("err","first failure","lineproto/writer.go")])
p("P13","Compression switches exactly at the requested point",
 "Data written before compression is switched on or off is sent in the old mode and data written afterwards in the new one, in order, because each switch first drains everything buffered; a switch that fails leaves the connection's mode consistent with what is actually being sent or read. On the reading side the end of a compressed block returns to plain reading from the same position.",
 ["histories","fault_sequences"],"every sequence of writes, flushes and switches and every failure of a switch",
 "tests cover one on/off/on sequence without faults",
 ["lineproto/writer.go","lineproto/reader.go","nmdc/writer.go"],
 [("flush before replacing the active stream; flag, stream and buffer target updated together","lineproto/writer.go"),("return to the original buffered reader on end of stream","lineproto/reader.go")])
p("P14","Configured size limits bound what is accepted and buffered",
 "A line longer than the configured maximum is never returned and buffering for it stops at the limit with an error; NMDC user names longer than the name limit are rejected both when encoding and decoding; NMDC command names longer than the configured limit are rejected.",
 ["inputs","configurations"],"every line length, read chunking, and limit value",
 "tests do not read over-long lines or vary how the data is chunked",
 ["lineproto/reader.go","nmdc/reader.go","nmdc/types.go"],
 [("limit test before growing the line","lineproto/reader.go ReadLine"),("name and command length guards","nmdc/types.go, nmdc/reader.go")])
p("P15","Hooks see every message in order and can drop or abort safely",
 "Every registered hook is called in registration order for each line or message it applies to before that message is delivered or written; a hook error is returned to the caller and the message is not delivered or written; a hook that asks to ignore a message suppresses just that message. Dropping or skipping a message never affects how later messages are read or written.",
 ["inputs","histories"],"every sequence of messages and every combination of hook results",
 "the hooks are hardly exercised by the tests, and interactions between a dropped message and the next one not at all",
 ["lineproto/reader.go","lineproto/writer.go","nmdc/reader.go","nmdc/writer.go"],
 [("hook loops","ReadLine, WriteLine, readMsgTo, WriteMsg"),("per-message state re-initialised in the read loop","nmdc/reader.go readMsgTo")])
p("P16","Malformed lines are rejected before decoding",
 "A line containing a NUL byte, or not ended by the protocol delimiter, is never decoded into a message in either protocol; an NMDC command with an empty or non-ASCII name is a protocol error; an ADC packet of unknown kind, or without a separator after its command name or address, is an error. Empty lines are keep-alives and are never delivered as messages.",
 ["inputs"],"every line",
 "tests include one NUL case and few separators; the rejection must hold at every position",
 ["nmdc/reader.go","adc/reader.go","adc/packets.go"],
 [("delimiter and NUL tests before dispatch","nmdc/reader.go readMsgTo, adc/packets.go DecodePacketRaw, adc/reader.go readPacket")])
p("P17","Tree hashes depend only on content",
 "A Tiger tree hash and its leaves are the same however the data source splits its reads, including short and empty reads; leaf and inner nodes are hashed under different prefixes; a read error other than end of input is returned and never yields a hash that looks successful.",
 ["inputs","fault_sequences"],"every content, every chunking of reads and every read failure",
 "tests use in-memory readers that always fill the buffer and never fail",
 ["tiger/tth.go"],
 [("blocks are filled before hashing","tiger/tth.go"),("0x00 / 0x01 prefixes","tiger/tth.go"),("error return in the read loop","tiger/tth.go")])
p("P18","Keyprint verification accepts only a matching certificate",
 "Keyprint verification on a TLS connection succeeds only if the expected keyprint equals the SHA-256 keyprint of the raw bytes of a certificate the peer presented on that connection; with no certificates or no match it returns an error. Keyprints read from a file cover every certificate block and no other kind of block.",
 ["inputs","configurations"],"every certificate chain and every expected keyprint",
 "there are no tests for verification at all",
 ["keyprint/tlskp/tlskp.go","keyprint/keyprint.go"],
 [("success return guarded by equality","keyprint/tlskp/tlskp.go VerifyKeyPrint"),("SHA256 over the DER bytes","keyprint/keyprint.go")])
p("P19","Every command decodes to its own message type",
 "Each built-in message type is registered exactly once under the command name it encodes with, a command name decodes to a fresh value of precisely that type, and unregistered commands decode to a raw message preserving name and payload. Each ADC packet kind letter decodes to the packet type that encodes with that letter.",
 ["inputs","configurations"],"every built-in type, every command name and packet kind",
 "tests cover a subset of the types; an unregistered or misnamed type silently degrades to raw",
 ["nmdc/message.go","nmdc/msg_*.go","nmdc/extensions.go","adc/messages.go","adc/packets.go"],
 [("registration in init","all message files"),("kind switch","adc/packets.go DecodePacketRaw")])
p("P20","ADC routing headers are preserved",
 "Each ADC send helper and stream emits the packet kind it is named for, addressed from the given source to the given target with the given message; a decoded packet reports as source and target exactly the identifiers at the header positions the encoder of the same kind writes them to, and the payload starts right after them.",
 ["inputs"],"every packet kind, every source/target/message",
 "tests never use the stream helpers and only check a few packets; swapped identifiers look alike",
 ["adc/writer.go","adc/packets.go"],
 [("field wiring in Write*/…Stream","adc/writer.go"),("header offsets in MarshalPacketADC / UnmarshalPacketADC","adc/packets.go")])
p("P21","Wire vocabulary matches the protocols",
 "Command names, ADC field codes and which field each belongs to, feature and extension names, status severities, flag bits, data types, delimiters, URL schemes and default ports are those of the NMDC and ADC specifications, and are pairwise distinct where the protocol distinguishes them.",
 ["configurations"],"every protocol constant and every message field",
 "tests touch a subset of the constants, and since encoder and decoder share each constant a consistent mistake round-trips",
 ["adc/extensions.go","adc/messages.go","adc/user.go","adc/search.go","adc/hub.go","adc/chat.go","adc/connect.go","nmdc/extensions.go","nmdc/msg_*.go","nmdc/types.go","nmdc/conn.go","adc/conn.go"],
 [("constants and struct tags","throughout")])
p("P22","Fixed-size identifiers are all or nothing",
 "Session IDs, client IDs, feature codes and tiger hashes are accepted only when the input has exactly the right size and alphabet for a base32 value where applicable, and never read beyond the field they occupy; on error the destination is not left holding a partial value that reports success.",
 ["inputs"],"every input to every identifier decoder, including truncated packet headers",
 "tests parse valid identifiers only",
 ["adc/types/types.go","adc/types.go","tiger/tiger.go","adc/packets.go"],
 [("length checks","UnmarshalADC / FromBase32 / UnmarshalBase32"),("header length guards","adc/packets.go")])
p("P23","Decoders never report success after a part failed to parse",
 "If any numeric, identifier or text part of a message fails to parse, the decoder returns an error rather than a message with that part silently missing; likewise no read, write, encoder or decoder error is dropped on the way to the caller. The one tolerated exception is the unparsable share size in NMDC user info, which is documented in the code.",
 ["inputs","fault_sequences"],"every input whose parts can fail and every failing I/O call",
 "tests have few negative cases and none per field",
 ["nmdc/msg_*.go","nmdc/types.go","nmdc/reader.go","nmdc/writer.go","adc/marshal.go","adc/messages.go","adc/packets.go","adc/reader.go","lineproto/*.go","tiger/*.go","keyprint/*.go"],
 [("error checks after each parse","all decoders")])
p("P24","Address parsing yields only supported, host-bearing addresses",
 "A hub address parsed as NMDC or ADC is returned without error only if its scheme is one of that protocol's two schemes (a bare NMDC address gets the default scheme), and normalisation succeeds only if a non-empty host is present. The combined parser sends an address to the ADC parser exactly when its scheme is an ADC one.",
 ["inputs"],"every address string",
 "tests list a dozen addresses; host names that merely resemble a scheme are not among them",
 ["conn.go","nmdc/conn.go","adc/conn.go"],
 [("scheme checks before the success return","nmdc/conn.go, adc/conn.go"),("dispatch","conn.go")])
p("P25","Numbers that do not fit are rejected, not wrapped",
 "A number received from a peer that does not fit the field it is decoded into is reported as an error; it is never silently truncated, wrapped to another sign, or turned into an unspecified value.",
 ["inputs"],"every numeric field and every digit string",
 "tests use small numbers",
 ["nmdc/utils.go","nmdc/msg_files.go","adc/marshal.go","nmdc/msg_search.go","adc/files.go","adc/messages.go"],
 [("range checks before narrowing conversions","numeric decoders")])
p("P26","Text codecs can be switched while a connection is in use",
 "The text encoder and decoder of an NMDC connection may be read and replaced from another goroutine at any time: every access to them is atomic, and each message is encoded or decoded with one of the codecs that was set.",
 ["schedules"],"every interleaving of codec switches with reads and writes",
 "no test switches codecs concurrently; a data race needs an unlucky schedule",
 ["nmdc/reader.go","nmdc/writer.go"],
 [("atomic.Value","nmdc/reader.go dec, nmdc/writer.go enc")],
 state=[("dec","current text decoder","nmdc/reader.go"),("enc","current text encoder","nmdc/writer.go")])
p("P27","Every field an encoder sends is restored by the decoder",
 "For each built-in message type, every field whose value the encoder puts on the wire is set by the decoder of the same type, and every field the decoder sets is sent by the encoder; every field of a tag-described message has a type that both directions support.",
 ["inputs","configurations"],"every field of every built-in message type",
 "tests do not populate every field of every message",
 ["nmdc/msg_*.go","adc/*.go"],
 [("paired Marshal/Unmarshal methods","message types"),("kind switches of marshalValue and unmarshalValue","adc/marshal.go")])
p("P28","The write deadline is armed around buffered writes",
 "When a write-timeout callback is configured, it is called to arm the deadline before a line is written or the buffer is flushed, a failure to arm aborts the operation before any data is sent, and it is always called to disarm afterwards, whatever the outcome.",
 ["histories","fault_sequences"],"every write and flush and every failure in them",
 "one test checks that a deadline fires; none checks pairing on error paths",
 ["lineproto/writer.go"],
 [("Timeout(true) ... defer Timeout(false)","lineproto/writer.go Flush, WriteLine")])
# not applicable
p("N01","Encode and decode are inverse",
 "Decoding what was encoded yields an equal message, for every message whose fields are representable on the wire.",
 ["inputs"],"every representable message value","tests round-trip samples",
 ["nmdc/msg_*.go","adc/*.go"],[("paired codecs","message types")])
p("N02","Tiger and tree-hash values are correct",
 "The tiger digest and tree hash computed for any content equal those of the reference algorithm.",
 ["inputs"],"every content","tests compare a few reference vectors",
 ["tiger/tiger.go","tiger/tth.go"],[("imported tiger implementation; pairwise combination","tiger")])
p("N03","Compressed streams carry exactly the bytes written",
 "What the peer inflates from a compressed connection equals the bytes written to it, for every sequence of writes and flushes.",
 ["inputs","histories"],"every write sequence","tests compare one sequence",
 ["lineproto/writer.go","lineproto/reader.go"],[("compress/zlib","lineproto")])
p("N04","Address normalisation is idempotent and canonical",
 "Normalising a normalised address returns it unchanged, and equivalent addresses normalise to the same string.",
 ["inputs"],"every address","tests list a dozen addresses",
 ["nmdc/conn.go","adc/conn.go"],[("url.Parse and String","conn.go")])
p("N05","Lock responses equal the protocol's key function",
 "The key computed for a lock is the value defined by the NMDC specification for every lock and magic byte.",
 ["inputs"],"every lock","tests compare a few locks",
 ["nmdc/msg_lock.go"],[("xor and nibble swap","nmdc/msg_lock.go")])
p("N06","Extension matching classifies every file name correctly",
 "The file group filter matches exactly the file extensions assigned to the requested groups, independent of case and path.",
 ["inputs"],"every file name and group","tests sample few names",
 ["adc/search.go"],[("extension table","adc/search.go")])
with open("/verif/properties.jsonl","w") as f:
    for d in P:
        assert len(d["title"])<=80, d["title"]
        f.write(json.dumps(d)+"\n")
print(len(P))
