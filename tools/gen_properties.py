#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SER, DE = "dlhn/src/ser.rs", "dlhn/src/de.rs"
BODY, HSER, HDE, HMOD = "dlhn/src/body/mod.rs", "dlhn/src/header/ser.rs", "dlhn/src/header/de.rs", "dlhn/src/header/mod.rs"
PV, ZZ, DER = "dlhn/src/prefix_varint.rs", "dlhn/src/zigzag.rs", "dlhn_derive/src/lib.rs"
BIG = ["dlhn/src/big_uint.rs", "dlhn/src/big_int.rs", "dlhn/src/big_decimal.rs", "dlhn/src/date.rs", "dlhn/src/date_time.rs"]
FMT = ["dlhn/src/format/big_uint.rs", "dlhn/src/format/big_int.rs", "dlhn/src/format/big_decimal.rs", "dlhn/src/format/date.rs", "dlhn/src/format/date_time.rs"]

prop("C01", "A stream of values is read back in order and unchanged",
 "When values of supported types are written one after another to a stream and every byte reaches the reader, reading the same types back yields exactly the same values, in the same order, and leaves nothing over. This holds however the transport splits, delays, interrupts or stalls the writes and the reads, and whatever order a hash map happened to iterate in.",
 ["inputs", "schedules", "fault_sequences", "histories"],
 "for every sequence of values of every serialisable type (all integer widths, floats bit for bit, chars, strings, byte strings, options, units, newtypes, tuples, structs, enums, sequences, text-keyed maps, nested to any practical depth) and every way the writer's and reader's calls are split, interrupted or retried by the transport",
 "The existing tests write one small value into a Vec and read it back from a slice: no stream of mixed types, no transport that accepts or returns fewer bytes than asked, no interruption, and only a few lengths, so a fault that needs a multi-byte length, a chunk boundary inside a value or the state left by an earlier value is out of their reach.",
 [SER, DE, PV, ZZ],
 [("value writers: every scalar, string, sequence, map, enum form", SER), ("value readers, chunked string and byte-string reads", DE), ("variable-length integers", PV), ("sign folding", ZZ)],
 ["values returned by Deserialize over a Deserializer whose reader is fed by what a Serializer wrote"])

prop("C02", "Bytes on the wire follow the published format, both ways",
 "For every supported value the bytes written are exactly those the DLHN format prescribes, so that a peer with an independent implementation, exchanging any sequence of requests and replies over an unreliable-speed connection, understands every value it is sent and is understood in return. The bytes never depend on how the transport splits the writes, on the process, the thread, or what was written before.",
 ["inputs", "schedules", "histories"],
 "for every value, every session of alternating writes and reads with a peer, and every split of the traffic into transport-level chunks",
 "Existing tests compare bytes for sampled values and build the expectation from the same varint helpers that the writer uses, so an error shared by writer and reader (or present in both copies of a helper) passes them all, and none involves a second implementation.",
 [SER, DE, PV, ZZ, HSER, "dlhn_derive/src/prefix_varint.rs"] + BIG,
 [("value layout", SER), ("variable-length integer layout", PV), ("sign folding", ZZ), ("type-description codes", HMOD)],
 ["bytes reaching the transport", "values decoded from bytes an independent encoder produced"])

prop("C03", "A failed write is reported and leaves an exact prefix",
 "If the underlying writer fails, refuses to accept more, or the value itself fails part-way, the write call reports an error; it never reports success for a value whose bytes did not all reach the writer. What reached the writer is exactly the leading part of what the fault-free run would have written, and nothing more is written for that value after the failure.",
 ["fault_sequences", "crash_points", "inputs"],
 "for every value, dynamic body or type description, and every byte position and kind of write failure (hard error, zero-length write, full disk, error after a partial write, failure raised by a field of the value), alone or after any number of interruptions",
 "All existing tests write to a Vec, which never fails: no error path of any writer is executed by any test.",
 [SER, HSER, BODY, DER],
 [("every write_all result is propagated", SER), ("error propagation while writing type descriptions", HSER), ("generated type-description writers", DER)],
 ["result of serialize / serialize_header / Header::serialize", "bytes accepted by the writer"])

prop("C04", "A cut-off stream yields its complete values, then an error",
 "If a stream is cut at any byte (a crash while writing, a torn last block, a closed connection), reading it back yields exactly the values that were completely inside the surviving part, and then an error; a value whose bytes are not all there is never returned, not even partly or defaulted. The same holds for type descriptions and for bodies read through them.",
 ["crash_points", "inputs", "histories"],
 "for every stream of values, and every position at which the surviving bytes end",
 "Existing tests check one case of end of input (a bool after two bools); no test cuts a string, byte string, sequence, map, multi-byte integer, float, date, big number or type description in the middle.",
 [DE, BODY, HDE, PV] + BIG,
 [("short reads become errors, including the long-string path", DE), ("length-delimited reads of dynamic bodies", BODY), ("type-description reads", HDE), ("varint tail reads", PV)],
 ["values and errors returned while reading the surviving prefix"])

prop("C05", "Read failures surface as errors and never as data",
 "Interruptions and short reads of the underlying reader never change what is decoded. A real read failure in the middle of a value makes that read report an error: no value is made up from missing bytes, no panic, no endless retry, and the failing call does not go on to consume bytes after the failure.",
 ["fault_sequences", "inputs", "schedules"],
 "for every encoded value, body or type description and every position, kind and sequence of reader faults (interrupted, would-block, timed out, connection reset, I/O error, unexpected end) within it",
 "Existing tests read from slices and cursors, which never fail, never return short and never interrupt.",
 [DE, HDE, BODY, PV],
 [("every read result is propagated", DE), ("varint continuation bytes", PV), ("type-description reads", HDE)],
 ["result of the read call", "number of reader calls and bytes taken after the fault"])

prop("C06", "Reads take exactly one value's bytes; writes hold nothing back",
 "A successful read consumes exactly the bytes of that value and never asks the transport for more than the value still needs, and when a write reports success all of its bytes have been handed to the transport. Hence two parties that take turns over a connection always make progress: neither ever waits for bytes that the other is not yet obliged to send.",
 ["schedules", "histories", "inputs"],
 "for every conversation of typed values, type descriptions and dynamic bodies between parties connected by pipes of any capacity, under every interleaving of the parties",
 "Existing tests decode from complete in-memory buffers, where reading ahead and writing late are both invisible.",
 [SER, DE, HDE, BODY],
 [("reads are sized by the remaining need", DE), ("writes go straight to the writer, no internal buffer", SER), ("type-description reads byte by byte", HDE)],
 ["bytes taken from the reader per value", "progress of every simulated party within a bounded number of steps"])

prop("C07", "Restarting at a record boundary loses and repeats nothing",
 "An append-only log written and read value by value can be abandoned and resumed at any record boundary: after a crash of writer or reader, a fresh writer continuing at the end of the complete records and a fresh reader continuing from its saved offset together deliver every durable record exactly once and in order. Nothing a reader or writer needs to continue lives in the discarded objects.",
 ["crash_points", "histories", "fault_sequences"],
 "for every history of appends, syncs, reads, checkpoints and crashes at any byte of writer and reader, with only the durable part of the log and the saved offset surviving",
 "Existing tests never reopen a stream: each creates one writer or reader, uses it once and drops it.",
 [SER, DE, BODY, HDE],
 [("writer and reader keep no state between values", SER + ", " + DE), ("dynamic bodies need only their type description", BODY)],
 ["records delivered to the reader over all incarnations, against the model log"])

prop("C08", "Concurrent and nested sessions do not affect each other",
 "Any number of readers and writers used at the same time from different threads, or one inside another (a value whose encoding runs another encoder, a transport that itself decodes another stream), each behave exactly as if they ran alone. No schedule of the threads and no failure in one session changes the bytes, values or errors of another.",
 ["schedules", "histories", "fault_sequences"],
 "for every set of sessions, every interleaving of their transport calls and of the instructions between them, and every fault injected into some of them",
 "No existing test uses two sessions at once, nests one in another, or runs any session on more than one thread.",
 [SER, DE, HSER, HDE, BODY],
 [("no shared or global mutable state; state lives in the caller's reader or writer", SER + ", " + DE + ", " + PV)],
 ["per-session bytes, values and errors compared with the same session run alone"])

prop("C09", "Damaged input never crashes, hangs or exhausts memory (typed reads)",
 "Reading a value of a known type from arbitrary bytes, including valid streams damaged in transit or at rest, always returns a value or an error. It never panics or aborts, never runs on without consuming input, and never uses memory or time out of proportion to the bytes actually received, whatever lengths the input claims.",
 ["inputs", "fault_sequences"],
 "for every target type and every byte string, in particular every damage of a valid stream (bit flips, lost, repeated, swapped or zeroed ranges, foreign records, forged lengths, truncation)",
 "Existing tests decode only well-formed input; no hostile length, tag, text or date is tried, although the crate is meant for bytes that arrive from elsewhere.",
 [DE, PV] + BIG + FMT,
 [("lengths are not trusted for allocation: chunked byte strings, bounded string reads", DE), ("checked calendar arithmetic", "dlhn/src/date.rs, dlhn/src/format/date.rs, dlhn/src/date_time.rs, dlhn/src/format/date_time.rs")],
 ["outcome, peak memory, reader calls of a read of damaged bytes"])

prop("C10", "Malformed values are rejected; valid ones decode as specified",
 "Reading succeeds exactly on byte sequences that are an encoding of a value of the requested type in the format, and then yields that value; everything else (a boolean or option tag other than 0 and 1, text that is not UTF-8, an unknown enum case, a calendar date that does not exist, a missing tail) is reported as an error. Damage in transit is therefore either detected or yields precisely what the damaged bytes mean, never something else.",
 ["inputs", "fault_sequences"],
 "for every type and every byte string produced by damaging, splicing, re-framing or misrouting valid streams",
 "Existing tests contain hardly any negative case (one missing bool); what is accepted or refused is otherwise untested.",
 [DE, PV, ZZ, BODY, HDE] + BIG + FMT,
 [("tag and text checks", DE), ("enum case lookup", DE + ", " + BODY), ("calendar validation", "dlhn/src/format/date.rs, dlhn/src/format/date_time.rs"), ("unknown type codes refused", HDE)],
 ["value or error compared with an independent decoder of the format"])

prop("C11", "A self-describing stream is understood with nothing but itself",
 "A reader that knows nothing but the stream can read a type description followed by any number of bodies of that type, under any splitting, interruption or delay of the transport: it recovers the identical description and the identical bodies. Re-writing what it recovered reproduces the stream.",
 ["inputs", "schedules", "histories"],
 "for every type description (all codes, nesting up to 128 levels, up to 65535 members of a tuple or enum) and every sequence of bodies that fit it",
 "Existing tests cover each type code once with fixed shallow shapes and read headers and bodies from separate complete buffers, never as one stream.",
 [HSER, HDE, HMOD, BODY, PV],
 [("type-description writer", HSER), ("type-description reader", HDE), ("dynamic bodies", BODY)],
 ["descriptions and bodies returned by the reader", "bytes of the re-written stream"])

prop("C12", "Damaged descriptions or dynamic bodies never crash or exhaust",
 "Reading a type description from arbitrary bytes, and reading a dynamic body under any description from arbitrary bytes, always returns a result or an error. It never panics, overflows the stack, hangs or uses memory out of proportion to the bytes received and the size of the description.",
 ["inputs", "fault_sequences"],
 "for every byte string as a description, every description and every byte string as its bodies, in particular damaged, spliced and misrouted valid streams",
 "Existing tests read only well-formed headers and bodies; no forged count, endless nesting or truncated header is tried.",
 [HDE, BODY, DE],
 [("nesting limit and bounded preallocation when reading descriptions", HDE), ("bounded preallocation of arrays in dynamic bodies", BODY)],
 ["outcome, peak memory, stack use and reader calls of a read of damaged bytes"])

prop("C13", "The description derived for a type matches what the type writes",
 "For every type with a derived or built-in type description, a relay that knows only the description can read every value of the type from a stream, in step with it, sees the same data, and accepts it as valid for the description. What the relay writes on is the same bytes (the same value, where an unordered map was re-ordered), so a receiver that knows the type reads the original value. A type whose members are written or not depending on their values gets no description at all.",
 ["programs", "inputs", "histories", "schedules"],
 "for every type built from the supported kinds whose serde attributes keep the member-by-member layout (skipped fields, skipped trailing variants, renames, defaults, field adapters; tuple, newtype, unit and struct forms; hundreds of fields or variants; not tag, untagged, flatten, from, into) and every stream of its values through any number of relays",
 "Existing tests compare the derived header of a few small types with literals; nothing ties a header to the bytes the type actually writes.",
 [DER, "dlhn_derive/src/prefix_varint.rs", HSER, BODY, SER],
 [("derived descriptions of structs and enums", DER), ("built-in descriptions", HSER), ("dynamic decode and encode", BODY)],
 ["description, dynamically decoded body, relayed bytes and finally decoded typed value"])

prop("C14", "Big numbers and calendar values survive in every representation",
 "Arbitrary-size integers, decimals, dates and timestamps written in any of their representations (wrapper value, number or calendar type through its field adapter, dynamic body) occupy the same bytes and read back as the same number or instant in any other. This holds for every magnitude, sign, scale, year and nanosecond that the types can hold, on any transport.",
 ["inputs", "schedules", "histories"],
 "for every number, decimal (scales within the 64-bit exponent after normalisation), date and UTC timestamp, every pair of writing and reading representation, and every transport split",
 "Existing tests check a few hand-picked magnitudes per type, mostly one representation at a time, and never the combination of representations across a stream.",
 BIG + FMT + [BODY, HSER],
 [("wrapper types", ", ".join(BIG)), ("field adapters", ", ".join(FMT))],
 ["bytes per representation and values recovered across representations"])

prop("C15", "What the format cannot carry is refused, never miswritten",
 "A value or request that the format cannot represent (map keys that are not text, sequences or maps of unannounced length, conditionally skipped fields, 128-bit integers, a description with too many members, reads that would need to know the type from the data) ends in an error. It is never silently written as bytes that read back differently, and never panics; values already on the stream stay readable up to that point.",
 ["inputs", "programs", "fault_sequences"],
 "for every such value or request at any position inside a value or stream, whatever was written before",
 "Existing tests check the refusal of map keys for a few key types at top level only; other refusals are untested and some were panics or silent corruption.",
 [SER, DE, HSER],
 [("text-only map keys", SER), ("length-less sequences and maps", SER), ("unsupported requests", DE), ("member-count check of descriptions", HSER)],
 ["result of the write or read", "readability of the stream before the refusal"])

prop("C16", "A gateway that checks bodies never puts its readers out of step",
 "A gateway that forwards a body only if it checks as valid for the stream's description keeps every reader of that stream in step: each forwarded body is read back equal, with nothing left over or missing. Every body that was itself read under the description is accepted, and a body of another shape that arrives by misrouting, duplication across sessions or a peer with an outdated description is refused.",
 ["histories", "fault_sequences", "inputs"],
 "for every set of sessions with different descriptions, every history of misrouted, duplicated, reordered or outdated bodies arriving at the gateway",
 "Existing tests validate single small bodies against single headers; none relates acceptance to what a reader of the stream then sees.",
 [BODY, HMOD],
 [("shape check of bodies against descriptions", BODY)],
 ["acceptance decision of the gateway and what readers of the forwarded stream decode"])

prop("C17", "Types that cannot be described are refused at compile time",
 "Asking for a derived type description of a union, or of a type with conditionally skipped members, is refused by the compiler with an explanation. No description is generated that would not match what the type writes.",
 ["programs"],
 "for every type definition to which the derive is applied",
 "The existing tests contain no compile-fail case.",
 [DER],
 [("conditional-skip and union checks", DER)],
 ["compiler diagnostics"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
