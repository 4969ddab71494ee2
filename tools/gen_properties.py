#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one dict per property, written as JSON lines)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

M = "src/message/"
p("P01", "Handles stay in sync with every edit made through other handles",
  "A message, field or cursor handle that was created on an occurrence keeps denoting that same occurrence, whatever edits are made meanwhile through any other handle on the same journal, as long as the occurrence itself is not erased. Every read through it yields that occurrence's current content and every write through it changes that occurrence and nothing else.",
  ["schedules", "histories", "inputs"],
  "every interleaving of edits by any number of co-existing handles (clients) on one journal, every schema shape, every initial message",
  "The tests hold at most two or three handles and replay fixed edit orders on one schema; alignment depends on the whole sequence of edits between two uses of a handle.",
  [M+"journal.c", M+"part.c", M+"cursor.c", M+"message.c", M+"field.c"],
  [("edit log replay on use", M+"journal.c pb_journal_align"), ("version check before each access", M+"part.h pb_part_aligned/pb_part_align"), ("length prefix propagation", M+"part.c adjust_recursive")],
  ["pb_field_get/pb_field_match", "pb_cursor_get", "pb_message_get/has", "pb_journal_data after writes through a handle"],
  [("journal entries", "log of (origin, offset, delta) of all size-changing edits", M+"journal.c"), ("part version and offsets", "log position up to which a handle has been moved", "include/protobluff/message/part.h")])
p("P02", "Every message behaves like an ordered collection of field occurrences",
  "After any history of create, put, get, has, match, erase and clear operations, the content of a message is what a plain in-memory tree of field occurrences would hold: put replaces the visible value of a singular field and appends to a repeated one, erase removes all occurrences and is idempotent, and the last occurrence of a singular field wins. Every operation that reports success has taken full effect, and an operation on one field never changes another field or another message.",
  ["histories", "schedules", "inputs"],
  "every history of operations by interleaved clients, every schema, every legal initial wire image including out-of-order, duplicate and unknown fields",
  "Unit tests run each operation a handful of times on messages the library itself built in tag order; combinations on foreign wire images are not sampled.",
  [M+"message.c", M+"part.c", M+"field.c", M+"cursor.c", M+"buffer.c"],
  [("locate or create the part of a tag", M+"part.c pb_part_create"), ("value write and length update", M+"part.c pb_part_write/pb_part_clear"), ("last occurrence lookup", M+"cursor.c pb_cursor_create")],
  ["pb_message_get/has/match", "independent parse of pb_journal_data"])
p("P03", "Handles on erased content become invalid and inert for good",
  "Once an occurrence, or any message that encloses it, has been erased through any handle, every handle on it answers each further use with an error or a negative result. Such a handle never yields data again and never changes a byte, no matter how often it is used and what is written afterwards.",
  ["schedules", "histories"],
  "every interleaving of erasures, later edits and repeated uses of handles left on erased content",
  "Tests use a stale handle once directly after one erasure; that it stays inert after more edits and repeated uses depends on history.",
  [M+"journal.c", M+"part.c", M+"cursor.c", M+"message.c", M+"field.c"],
  [("invalidation while replaying the edit log", M+"journal.c pb_journal_align"), ("invalid marker in the version", M+"part.h PB_PART_INVALID")],
  ["return codes of operations on stale handles", "journal bytes before and after such operations"])
p("P04", "The stored bytes are always a well-formed message that can be reopened",
  "After every completed operation the journal's bytes parse completely as the message: all length prefixes cover exactly their content, no tag or value is cut, and the bytes of unknown fields are preserved. A process that stops at that point and is started again on the persisted bytes sees exactly the same message and can continue to edit it.",
  ["histories", "crash_points", "schedules"],
  "every operation boundary of every history as a stop-and-reopen point, every nesting depth and every length-prefix size transition",
  "Tests compare bytes after a few fixed edits; growth and shrinkage of nested length prefixes over arbitrary histories and reopening in between are not exercised.",
  [M+"part.c", M+"journal.c", M+"buffer.c"],
  [("recursive length prefix update", M+"part.c adjust/adjust_recursive/adjust_prefix"), ("header creation", M+"part.c init"), ("range write/clear", M+"buffer.c")],
  ["pb_journal_data/pb_journal_size after each operation", "state read back after reopening the bytes"])
p("P05", "A cursor visits every remaining occurrence exactly once, in wire order",
  "A cursor positioned on a field visits each later occurrence that still exists exactly once and in wire order, skips other and unknown fields, and then reports the end of the message, also when occurrences are rewritten, erased (including the current one) or appended during the iteration. Seek and match find exactly the occurrences holding the given value, and rewinding starts at the first occurrence again.",
  ["schedules", "histories", "inputs"],
  "every interleaving of iteration steps with edits by the cursor itself and by other handles; packed, unpacked and mixed encodings",
  "Tests iterate over static messages or erase every element; interleaving with other writers and mixed encodings multiplies beyond samples.",
  [M+"cursor.c", M+"journal.c"],
  [("next occurrence", M+"cursor.c next/next_packed"), ("re-alignment of position and packed context", M+"cursor.c pb_cursor_align"), ("seek and match", M+"cursor.c pb_cursor_seek/pb_cursor_match")],
  ["sequence of values delivered by pb_cursor_get", "pb_cursor_error at the end"])
p("P06", "Packed and unpacked repeated fields are interchangeable when edited",
  "A repeated scalar field reads as the same list of values whether its elements are stored packed, unpacked or in several mixed runs, and appending, rewriting and erasing elements keeps that list equal to a plain list. Elements are never lost, merged or written outside the packed run, and a run whose last element is erased disappears.",
  ["histories", "schedules", "inputs"],
  "every history of element edits over every mix of packed and unpacked runs and every element size transition",
  "Tests use packed fields only in the encoding the schema declares and never mix encodings in one message.",
  [M+"part.c", M+"cursor.c", M+"journal.c"],
  [("packed context", M+"cursor.c next_packed"), ("packed field initialisation and removal", M+"part.c pb_part_create/adjust_recursive")],
  ["values iterated by cursors", "independent parse of the bytes"])
p("P07", "At most one member of a oneof is visible, and it is the last one written",
  "After writing a member of a oneof only that member is visible, the active case reports its tag, and reading any other member reports absence; clearing the oneof or erasing any member leaves none. Fields that are not members of the oneof are never affected, and their own presence never hides a member.",
  ["histories", "schedules", "inputs"],
  "every history of member writes, erasures and clears mixed with edits of ordinary fields by interleaved handles; every initial order and multiplicity of members on the wire",
  "Tests check a message holding only oneof members written in order; other fields following a member and foreign wire orders are not covered.",
  [M+"oneof.c", M+"part.c", M+"cursor.c", M+"message.c"],
  [("erase later members on write", M+"part.c pb_part_create"), ("visibility check on read", M+"cursor.c pb_cursor_create"), ("case and clear", M+"oneof.c")],
  ["pb_oneof_case", "pb_message_has/get on members"])
p("P08", "Nested accessors equal step-by-step access, and only writes create",
  "Reading, testing, matching, writing and erasing through a path of tags gives the same result and leaves the same message as walking the path one submessage at a time. Writes create the missing submessages on the path; reads, tests, matches and erasures never create anything, and erasing below a missing submessage succeeds like any other erasure of an absent field.",
  ["histories", "inputs"],
  "every path depth, every present or absent prefix of the path, every history of edits before",
  "Tests follow one self-recursive path that is complete; absent prefixes and mixtures with direct edits are sampled once or never.",
  [M+"nested.c", M+"message.c", M+"cursor.c"],
  [("path resolution by cursors", M+"nested.c resolve"), ("path creation", M+"message.c pb_message_create_nested")],
  ["pb_message_nested_*", "bytes before and after"])
p("P09", "Reading never changes the message, the journal or memory use",
  "No read, test, match, iteration, decode or validation ever changes a byte of the message, moves it in memory, adds to the edit log or calls the allocator, whatever its result.",
  ["histories", "schedules", "inputs", "fault_sequences"],
  "every read operation at every point of every history, with every handle age, on intact and on damaged messages, with an allocator that refuses every request",
  "Tests do not compare the full state around reads and never run reads against a refusing allocator.",
  [M+"cursor.c", M+"field.c", M+"message.c", M+"nested.c", "src/core/decoder.c", "src/util/validator.c"],
  [("cursors instead of part creation for reads", M+"message.c pb_message_get/pb_message_has"), ("stack-only handles", M+"cursor.c")],
  ["allocator call counts", "pb_journal_data pointer, size and bytes around reads"])
p("P10", "A refused first allocation makes an edit fail cleanly and without effect",
  "If the memory an edit needs is refused from the start, the edit reports an error, the message keeps exactly its former bytes, and every other handle keeps working on exactly the occurrences it denoted. Once memory is available again the same edit succeeds.",
  ["fault_sequences", "histories", "schedules"],
  "every edit at every point of every history with its first memory request refused, any number of times in a row, with other handles of any age present",
  "Tests fail one allocation on an empty message; recovery of a message with many handles in flight is not sampled.",
  [M+"journal.c", M+"buffer.c", M+"part.c", M+"message.c"],
  [("push before write, pop on failure", M+"journal.c pb_journal_write/pb_journal_clear"), ("grow before move", M+"buffer.c pb_buffer_write")],
  ["return codes under a refusing allocator", "bytes and handles afterwards"])
p("P11", "Memory running out at any point is survived and never reported as success",
  "Whichever memory requests are refused during any operation, the library never crashes, never touches memory it does not own and never leaks, and an operation whose effect is incomplete never reports success. A refused request to shrink a block never makes an operation fail.",
  ["fault_sequences", "histories", "crash_points"],
  "every subset of memory requests refused inside every operation, including creation, nested creation, multi-occurrence erasure and copying of submessages",
  "Tests refuse one chosen allocation in isolation; later requests inside one operation are marked as not coverable in the sources.",
  [M+"part.c", M+"journal.c", M+"buffer.c", M+"cursor.c", M+"oneof.c", "src/core/encoder.c", "src/core/buffer.c"],
  [("error propagation", M+"part.c"), ("shrinking tolerates failure", M+"buffer.c pb_buffer_write/pb_buffer_clear")],
  ["return codes compared with actual effect", "sanitizer reports", "allocator balance"])
p("P12", "Buffer and journal range edits are exact and all-or-nothing",
  "Growing, overwriting and clearing a byte range of a buffer or journal changes exactly that range and shifts exactly the bytes behind it; out-of-range requests are refused. When memory is refused the data, size and edit log are exactly as before, and shrinking always succeeds.",
  ["fault_sequences", "histories", "inputs"],
  "every sequence of range edits with every range and size, with memory requests failing at any point and the allocator moving blocks at any time",
  "Tests edit a few fixed ranges with a working allocator, or one range with a failing one.",
  ["src/core/buffer.c", M+"buffer.c", M+"journal.c"],
  [("range check and move", M+"buffer.c"), ("growth", "src/core/buffer.c pb_buffer_grow"), ("log rollback", M+"journal.c pop")],
  ["buffer bytes, size and error codes", "journal version"])
p("P13", "Zero-copy editing happens in place or not at all",
  "On caller-owned memory every edit that keeps the size succeeds in place and every edit that would change the size fails with an error and changes nothing. No memory is ever allocated, no byte outside the caller's range is read or written, and all handles remain usable after a failed edit.",
  ["histories", "schedules", "inputs", "configurations"],
  "every history of size-keeping and size-changing edits by interleaved handles on exactly sized caller memory",
  "Tests try one write and one clear; sequences over nested messages, packed fields, oneofs and creations are not covered.",
  [M+"buffer.c", M+"journal.c", M+"part.c", "src/core/buffer.c"],
  [("zero-copy allocator marker", "src/core/allocator.c allocator_zero_copy"), ("resize refusal", M+"buffer.c, " + M+"journal.c push")],
  ["caller memory bytes", "return codes", "allocator calls"])
p("P14", "Damaged or truncated input is read safely and terminates",
  "Decoding, validating, iterating and reading any byte sequence whatsoever never reads or writes outside the given data, never crashes, and finishes after a number of steps bounded by the input size. Values are only ever delivered from inside the data; damage that prevents this is reported as an error or as absence.",
  ["inputs", "fault_sequences", "crash_points"],
  "every byte string: valid messages cut at any byte, with flipped, inserted, deleted or duplicated bytes, and random bytes; exactly sized memory; any schema",
  "Tests feed a few hand-written garbled messages out of larger stack buffers, so reads past the end go unnoticed.",
  ["src/core/stream.c", "src/core/varint.c", "src/core/decoder.c", M+"cursor.c", M+"field.c", "src/util/validator.c"],
  [("bounds checks while advancing", "src/core/stream.c pb_stream_advance"), ("varint scanning", "src/core/varint.c"), ("length checks", "src/core/decoder.c, " + M+"cursor.c next")],
  ["sanitizer reports on exactly sized inputs", "delivered values", "handler call counts"])
p("P15", "Editing a damaged message is safe",
  "Every edit attempted on a message with damaged bytes either succeeds or reports an error; it never crashes, never touches memory outside the message, never loops, and never leaks. This holds for handles created before or after the damage.",
  ["inputs", "fault_sequences", "histories"],
  "every history of edits on messages with bytes damaged or cut at any point before or between the edits",
  "Tests cover garbled data only for reads and creation of a few handles.",
  [M+"part.c", M+"cursor.c", M+"oneof.c", M+"nested.c", M+"journal.c"],
  [("errors of the stream abort the edit", M+"part.c adjust_recursive, pb_part_create")],
  ["sanitizer reports", "return codes", "allocator balance"])
p("P16", "The decoder delivers every field once, in order, and stops on request",
  "Decoding delivers each known field occurrence exactly once in wire order with its exact value, elements of packed runs one by one, and nothing for unknown fields. If the handler aborts, decoding stops at once and returns the handler's error; if the data is cut or damaged, exactly the fields before the damage may be delivered and an error is returned.",
  ["inputs", "fault_sequences", "crash_points"],
  "every message of every schema with handler aborts at every delivery and data cut at every byte; nested decoding to any depth with aborts propagating",
  "Tests count deliveries on few messages and abort once.",
  ["src/core/decoder.c", "src/core/stream.c", "src/core/varint.c", "src/core/descriptor.c"],
  [("tag loop", "src/core/decoder.c pb_decoder_decode"), ("typed reads", "src/core/stream.c")],
  ["sequence of handler invocations", "return code"])
p("P17", "Encoded output holds exactly what was successfully encoded",
  "After any sequence of encode calls the encoder's bytes decode to exactly the values of the calls that reported success, in call order, including packed runs and nested encoders. A call that fails because memory is refused reports an error and leaves the output decodable and without any part of the value it failed to store.",
  ["fault_sequences", "histories", "inputs"],
  "every sequence of encode calls with memory refused at any request inside any call, then continued",
  "Tests fail the allocator from the first request on and do not look at the output after a failure in the middle of a call.",
  ["src/core/encoder.c", "src/core/buffer.c", "src/core/varint.c"],
  [("growth then packing", "src/core/encoder.c encode/encode_packed"), ("size computation", "src/core/varint.c pb_varint_size_*")],
  ["encoder buffer bytes after each call", "return codes"])
p("P18", "The validator accepts exactly intact messages with all required fields",
  "Validation succeeds if and only if the bytes decode completely at every nesting level and every required field is present in every message occurrence. Missing required fields are reported as absent and damage as an error, and a verdict depends on nothing but the bytes and the schema.",
  ["inputs", "fault_sequences", "crash_points"],
  "every message with any required fields removed at any level, cut or damaged at any byte, with repeated submessages, duplicates, unknown and extension fields",
  "Tests check one level and two submessages.",
  ["src/util/validator.c", "src/core/decoder.c"],
  [("occurrence collection", "src/util/validator.c handler"), ("recursive check", "src/util/validator.c check")],
  ["pb_validator_check result compared with an independent verdict"])
p("P19", "The chunk allocator hands out disjoint, stable blocks and returns all memory",
  "Blocks handed out never overlap, are at least as large as requested, keep their content when resized or when other blocks are allocated, resized or freed, and survive until freed or until the allocator is destroyed, which returns all memory to the system. A block that is resized within the capacity of its chunk stays where it is and needs no memory. When the system refuses memory the request fails, the block stays as it was, and the allocator remains usable.",
  ["histories", "schedules", "fault_sequences"],
  "every interleaving of requests by several clients with system memory refused at any request and blocks moved by the system at any time",
  "Tests allocate a few blocks one after another and never see the system refuse or move memory.",
  ["src/util/chunk_allocator.c"],
  [("chunk list", "src/util/chunk_allocator.c allocator_allocate/resize/free"), ("destroy", "src/util/chunk_allocator.c pb_chunk_allocator_destroy")],
  ["block contents and addresses", "system memory balance"])
p("P20", "Every structure returns exactly the memory it took, to where it came from",
  "Every block obtained from an allocator is resized and freed only through that allocator, is freed exactly once, and nothing is left over when the journals, buffers and encoders are destroyed, whatever operations, failures and reopenings happened before. Destroying a structure twice or destroying an invalid one has no effect.",
  ["histories", "fault_sequences", "crash_points"],
  "every history, with any mix of allocators (default, custom, chunk, zero-copy), destroyed at any operation boundary, with memory refused at any point",
  "Tests do not balance allocations over histories nor combine several allocators.",
  ["src/core/buffer.c", M+"journal.c", "src/core/encoder.c", "src/core/allocator.c", "src/util/chunk_allocator.c"],
  [("ownership by the buffer's allocator", "src/core/buffer.c"), ("log release", M+"journal.c pb_journal_destroy")],
  ["simulated allocator ledger"])
p("P21", "Errors travel: using an invalid structure is refused and has no effect",
  "A structure built from an invalid or destroyed one is itself invalid, and every operation on an invalid structure returns an error or a negative result without crashing and without any effect, through any chain of further constructions.",
  ["histories", "fault_sequences"],
  "every way to become invalid (refused memory at creation, destruction, damaged data, erased content) followed by every chain of constructions and operations",
  "Tests check single steps from each invalid structure, not chains.",
  [M+"message.c", M+"field.c", M+"cursor.c", M+"oneof.c", M+"nested.c", M+"part.c", M+"journal.c", "src/core/decoder.c", "src/core/encoder.c"],
  [("validity test at every entry", M+"message.c"), ("invalid constructors", M+"part.h pb_part_create_invalid")],
  ["return codes and validity of derived structures"])
p("P22", "Journals are independent; copying a submessage copies its value",
  "Operations on one journal never affect another one, and writing a message of one journal into another stores exactly the source's content at that moment. Later edits, failures or destruction of the source leave the copy unchanged, and vice versa.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of clients on several journals with copies between them, at every depth, from root, nested and cursor-obtained sources, and with memory refused",
  "Tests copy a fresh one-field message into a fresh message.",
  [M+"message.c", M+"cursor.c", M+"part.c"],
  [("raw data write", M+"message.c pb_message_put, " + M+"cursor.c pb_cursor_put")],
  ["both journals' bytes and handles after each step"])
p("P23", "A message viewed through a bytes field stays embedded correctly",
  "A message opened over a bytes field reads and edits the message stored in it, and after every edit the bytes field, all enclosing messages and all other handles remain consistent with it. The view becomes invalid when the field is erased.",
  ["histories", "schedules"],
  "every history of edits through views of bytes fields interleaved with edits around them at any nesting depth",
  "Tests create such a view and write once.",
  [M+"message.c", M+"part.c", M+"journal.c"],
  [("part shared with the field", M+"message.c pb_message_create_from_field")],
  ["bytes of the field", "content read through the view"])
p("P24", "New occurrences are placed as documented and edits are local",
  "A new occurrence is placed directly behind the last occurrence of the same field, or else behind the last occurrence of a smaller known tag, or else at the start of the message; an existing singular field is rewritten where it is. All other bytes keep their order, and the same history always produces the same bytes, with minimal length prefixes on what was rewritten.",
  ["histories", "schedules", "inputs"],
  "every history of edits and every initial order of fields, compared byte by byte with a reference writer, with the allocator moving blocks arbitrarily",
  "Tests compare bytes for messages built by the library itself in a few orders.",
  [M+"part.c", M+"message.c"],
  [("best matching offset", M+"part.c pb_part_create")],
  ["journal bytes after each operation"])
p("P25", "Absent fields read as their default; creating a field stores the default",
  "Reading a singular field that is absent or hidden yields the schema's default or else reports absence, at every point of every history and for every type, and never stores anything. Creating a field handle on an absent field stores the explicit or the type's implicit default exactly once and leaves an existing value alone.",
  ["histories", "schedules", "inputs"],
  "every history of put, create, erase and read over every type with and without default, in plain, oneof, nested and repeated positions",
  "Tests read defaults of a few types in fresh messages.",
  [M+"message.c", M+"field.c", "include/protobluff/core/descriptor.h"],
  [("default lookup", M+"message.c pb_message_get"), ("default write", M+"field.c pb_field_create")],
  ["pb_message_get result and value", "bytes after pb_field_create"])
p("P26", "Extension fields behave like native fields once registered",
  "Fields of a registered extension can be read, written, erased, iterated, decoded, encoded and validated exactly like the message's own fields, through any number of chained extensions and however late the registration happens; before registration they are preserved as unknown fields. Registering an extension twice has no further effect.",
  ["histories", "schedules", "inputs"],
  "every registration order and moment in every history of operations on messages that hold extension fields",
  "Tests register one extension up front and look up one tag.",
  ["src/core/descriptor.c", "src/core/decoder.c", "src/util/validator.c", M+"cursor.c", M+"part.c"],
  [("extension chain", "src/core/descriptor.c pb_descriptor_extend/pb_descriptor_field_by_tag")],
  ["operations on extension tags", "bytes of unknown fields before registration"])
p("P27", "Variable-sized integers survive a pack and unpack round trip",
  "Packing any value of any integer type and unpacking it gives the value back, and the reported size is the number of bytes produced.",
  ["inputs"], "every value of every integer type",
  "Tests check a few values per type.",
  ["src/core/varint.c"], [("pack/unpack/size", "src/core/varint.c")], ["pb_varint_*"])
p("P28", "Generated bindings act as the schema file says, through any history",
  "For every valid schema, the generator emits bindings that compile, whose descriptors carry the schema's tags, names, types, labels, defaults, packed flags, oneofs, enums, nesting and extensions, whose accessors act on exactly the declared field of the message they are applied to at any point of any history, and whose text depends on nothing but the schema.",
  ["programs", "inputs", "histories", "fault_sequences"], "every schema file; every interleaving of accessor calls on shared journals with refused memory and restarts; every memory layout of the generator",
  "Tests compile a few schema files and compare some accessors on fresh messages.",
  ["src/generator"], [("code generation", "src/generator"), ("enum tables", "src/core/descriptor.c")], ["generated .pb.h/.pb.c files, their tables and every generated accessor"])
p("P29", "Lookups and iterators find exactly the declared entries at any time",
  "At any point of any history of extension registrations (in any order, repeated or not), looking up a field by tag or name, or an enum value by number or name, finds exactly a declared and visible entry or nothing; iterators over fields, enum values and oneof members visit every entry in order in both directions, report whether they moved and where they stand, and say so when there is no entry left; lookups and iterations change no table and request no memory.",
  ["histories", "inputs"], "every set of tables, every history of registrations, every key, every sequence of iterator moves",
  "Tests look up a few keys in fixed tables and walk them once; they never register while iterating, twice, or with single-entry tables.",
  ["src/core/descriptor.c", "src/util/descriptor.c", "include/protobluff/core/descriptor.h"], [("ordered tables and extension chain", "src/core/descriptor.c"), ("iterators", "include/protobluff/core/descriptor.h")], ["lookup results", "iterator results and positions"])
p("P30", "Development builds never abort and behave exactly like production builds",
  "The library compiled with its assertions (as recommended for development) runs any sequence of documented calls, on intact and on damaged data, with any memory refused, without an assertion failing, and takes exactly the same course as the library compiled without them: the same results, the same bytes, the same memory requests.",
  ["histories", "inputs", "fault_sequences"], "every history of calls of the other properties, every refused request, every damaged input",
  "The test suite is built without assertions; nothing it runs ever evaluates one.",
  ["src/message/part.c", "src/message/journal.c", "src/message/cursor.c", "src/core/decoder.c"], [("assertions", "src/message/part.c"), ("internal contracts", "src/message/journal.c"), ("internal contracts", "src/message/cursor.c"), ("decoder", "src/core/decoder.c")], ["process aborts", "event logs of both builds"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
