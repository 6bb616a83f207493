#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
GEN="src/parquet_format.rs"; P="src/thrift/protocol/"; V="src/thrift/varint/"
C,CS,CW,CSW=P+"compact.rs",P+"compact_stream.rs",P+"compact_write.rs",P+"compact_stream_write.rs"
MOD,STR,ERR=P+"mod.rs",P+"stream.rs","src/thrift/errors.rs"
rows=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    rows.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
        why_tests_cant=why,anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
BUD=("remaining","bytes the reader may still commit to",C+", "+CS)
PEND=("pending_read_bool_value","bool carried by the field header until the value is asked for",C+", "+CS)
LAST=("last_read_field_id / read_field_id_stack","base of the next field-id delta, saved per nested struct",C+", "+CS)

p("C01","Written values read back equal, through either API",
  "Any value of any Parquet metadata type that is successfully written with the synchronous or the asynchronous compact writer is read back by the synchronous and by the asynchronous reader (with a sufficient limit) as an equal value. This includes unknown enum numbers, empty and very large strings and lists, every combination of absent optional fields, and values at the extremes of their integer types.",
  ["inputs","configurations"],"all values of all 58 Parquet Thrift types x {sync,async} writer x {sync,async} reader",
  "The unit tests round-trip one FileMetaData and one PageHeader; 40+ types, unions, list/string size classes, integer extremes and option combinations are never built.",
  [GEN,C,CS,CW,CSW],[("per-type writer/reader pairs generated from parquet.thrift",GEN),("compact encoding of headers, varints, zigzag, lists, strings",C+", "+CW)],
  ["T::write_to_out_protocol","T::write_to_out_stream_protocol","T::read_from_in_protocol","T::stream_from_in_protocol"],[LAST,PEND])
p("C02","A read consumes exactly the bytes of the value it returns",
  "Reading a value takes from the transport exactly the bytes that make up that value's encoding and not one more, whatever follows and however the transport chunks its data. Hence values (of any types) written back to back can be read back one after another, through one reader or a fresh reader per value, and the transport is left positioned on the first byte after the last one; seeking the reader moves exactly that position.",
  ["inputs","histories"],"all sequences of values and trailing bytes, sync and async, any chunking",
  "Tests read one value from a buffer that ends with it and never look at the transport's position.",
  [C,CS,V+"decode.rs",V+"decode_async.rs"],[("byte-wise varint reads and Take-limited byte reads",C+", "+V+"decode.rs"),("Seek forwarding",C)],
  ["position of the io::Read / AsyncRead handed to the reader"],[LAST])
p("C03","Write calls return exactly the number of bytes they delivered",
  "Every successful write call - of a whole value, and of each protocol element (message, struct, field, list, set and map headers, every scalar, string and byte array), synchronous, asynchronous or through a boxed protocol - returns exactly the number of bytes it handed to the transport, and so do the standalone varint writers. The counts add up: the count of a value equals the length of its encoding.",
  ["inputs","histories"],"all values, all protocol call sequences, sync and async",
  "No test looks at a returned count.",
  [CW,CSW,GEN,V+"encode.rs",V+"encode_async.rs",MOD],[("count accumulation in every writer",GEN+", "+CW+", "+CSW)],
  ["return value of every write call vs. bytes accepted by the transport"])
p("C04","Writers emit the Thrift compact encoding of the parquet.thrift schema",
  "What the writers emit, decoded by any conforming Thrift compact-protocol decoder, is exactly the value's fields under the field ids and wire types that parquet.thrift assigns: every present field once, absent optional fields not at all, lists with their true element type and length, unions as exactly one field. Nothing else is emitted.",
  ["inputs"],"all values of all types, sync and async writers",
  "Tests only read back with this crate's own reader, so a matching error in writer and reader (a wrong field id, zigzag or header) is invisible to them.",
  [GEN,CW,CSW,V+"encode.rs",V+"decode.rs"],[("field ids / wire types in generated writers",GEN),("header and varint encoding",CW)],
  ["bytes handed to the transport"],[("last_write_field_id / write_field_id_stack","base of the next field-id delta",CW+", "+CSW)])
p("C05","Readers decode every conforming encoding to the value it denotes",
  "Given any conforming Thrift compact encoding of a Parquet metadata value - fields in any order, short or long field headers, short or long list headers, as other Thrift implementations may emit - the synchronous and the asynchronous readers return exactly the value the encoding denotes under parquet.thrift.",
  ["inputs"],"all conforming encodings of all values of all types; sync and async",
  "Tests only feed bytes this crate wrote (ascending field order, one header form).",
  [GEN,C,CS,V+"decode.rs",V+"decode_async.rs"],[("field-id dispatch",GEN),("field/list header decoding",C+", "+CS)],
  ["returned values"],[LAST,PEND])
p("C06","Unknown fields of any type are skipped without effect",
  "Fields that the reader's schema does not know - of any wire type, including nested structs, lists, sets, maps, booleans and arbitrary (also non-UTF-8) binary, with any id, at any place in a struct - are skipped: the read succeeds, every known field has the value it would have without them, and exactly the value's bytes are consumed.",
  ["inputs"],"all values x all placements of well-formed unknown fields nested within the skip depth; sync and async",
  "No test contains an unknown field.",
  [MOD,STR,GEN,C,CS],[("skip / skip_till_depth",MOD+", "+STR),("default arm of generated readers",GEN)],
  ["returned values","transport position"],[LAST,PEND])
p("C07","Required fields and union cardinality are enforced",
  "A read returns a struct only if every field that parquet.thrift marks required was present in the input, and fails with a protocol error otherwise, at every nesting level; absent optional fields never cause a failure. A union is returned only if the input carried exactly one field and it is a known member; none, several, or an unknown member is a protocol error.",
  ["inputs"],"all types x all subsets of removed fields x all union field lists; sync and async",
  "Tests only read complete values.",
  [GEN,MOD],[("verify_required_field_exists",MOD+", "+GEN),("received_field_count in union readers",GEN)],
  ["Ok/Err of reads"])
p("C08","Reading never panics, aborts or exhausts the stack",
  "For every byte string, every limit and every transport that honours the contract of its I/O trait (however it splits, delays, interrupts or fails), reading any Parquet type, an application error, or any protocol element (including skip) returns Ok or Err: it never panics, never aborts the process by failed allocation, and never overflows the stack. This holds with overflow checks and debug assertions on and off, for the synchronous and asynchronous readers.",
  ["inputs","fault_sequences","configurations"],"all byte strings x types x limits (0 to usize::MAX) x short/failing/interrupted transports",
  "Tests feed only well-formed bytes.",
  [C,CS,MOD,STR,GEN,V+"decode.rs",V+"decode_async.rs",ERR],[("Result everywhere, checked arithmetic, fallible allocation, bounded skip depth",C+", "+MOD)],
  ["process survival, unwinding, stack use"],[BUD])
p("C09","Memory use while reading is bounded by the configured limit",
  "While reading any input with limit N, the heap memory a read has allocated never exceeds a fixed multiple of N plus a fixed constant, no matter which lengths and element counts the input claims and which type is read; in particular lengths in a few input bytes cannot cause large allocations. The same holds for skipped fields and for the asynchronous reader.",
  ["inputs"],"all byte strings x types x limits; sync and async",
  "All tests use an unlimited reader; no test measures allocation.",
  [C,CS,MOD,STR],[("charging the limit before allocating",C+", "+CS),("list pre-allocation after the charge",MOD+", "+STR)],
  ["global allocator: peak live bytes and largest request per read"],[BUD])
p("C10","The read limit is charged exactly and cumulatively",
  "A reader created with limit N fails with a size-limit protocol error exactly when the values read through it so far charge more than N, where each string or byte array charges its length, each list, set and non-empty map one machine word per declared element, each struct two bytes, and nothing is ever refunded; skipped fields are charged alike. Data within the limit is never refused, and synchronous and asynchronous readers charge the same.",
  ["inputs","histories"],"all values and value sequences x limits around the exact charge, up to usize::MAX; sync and async",
  "All tests pass usize::MAX, so no charge is ever observable.",
  [C,CS],[("update_remaining",C+", "+CS)],["Ok / SizeLimit error as a function of the limit"],[BUD])
p("C11","Skipping is bounded to the documented nesting depth",
  "Skipping a value succeeds, and consumes exactly that value, if its nesting depth (a scalar counts 1, each enclosing struct, list, set or map one more) is at most the depth limit - 64 by default, or the limit passed by the caller - and fails with a depth-limit protocol error if it is deeper, for every mix of container kinds, for skipped fields of every type, and for synchronous and asynchronous readers alike.",
  ["inputs"],"all nested container shapes x depth limits 0..127",
  "No test skips anything.",
  [MOD,STR],[("skip_till_depth, MAXIMUM_SKIP_DEPTH",MOD+", "+STR)],["Ok/Err kind of reads and skips, transport position"])
p("C12","Synchronous and asynchronous readers are equivalent",
  "For every byte string, type and limit, the asynchronous reader returns the same result as the synchronous one - equal value, or error of the same kind - after consuming the same number of bytes, no matter how the asynchronous transport splits its data or how often it is not ready.",
  ["inputs","schedules"],"all byte strings (well-formed, mutated, hostile) x types x limits x poll schedules",
  "Each async test mirrors one sync test on one always-ready buffer.",
  [C,CS,MOD,STR,GEN,V+"decode.rs",V+"decode_async.rs"],[("parallel sync/async implementations",C+" vs "+CS+", "+MOD+" vs "+STR)],
  ["results, consumption"],[BUD,LAST,PEND])
p("C13","Synchronous and asynchronous writers produce identical bytes",
  "For every value, and for every valid sequence of protocol write calls, the asynchronous writer delivers byte for byte the same output and returns the same counts as the synchronous writer, no matter how little the asynchronous transport accepts per call or how often it is not ready; writing the same value again gives the same bytes.",
  ["inputs","schedules"],"all values and call sequences x transport schedules",
  "Tests never compare the two writers' outputs.",
  [CW,CSW,GEN],[("parallel sync/async implementations",CW+" vs "+CSW)],["bytes handed to the transport, counts"])
p("C14","Truncated input is always reported, never returned as a value",
  "If the transport ends anywhere strictly inside a value's encoding, reading fails with an end-of-file transport error - it never returns a value, and this holds for whole Parquet values and for each protocol element (strings, byte arrays, varints, doubles, headers, messages), synchronous and asynchronous.",
  ["crash_points","inputs"],"all encodings x all cut points",
  "No test truncates anything but a bare varint.",
  [C,CS,V+"decode.rs",V+"decode_async.rs"],[("read_exact, EOF checks, length checks",C+", "+CS)],["Ok/Err kind per cut point"])
p("C15","Transport read faults never change or fake a result",
  "How a transport delivers data - any split into short reads, and for blocking transports any number of interrupted reads - does not influence the result of a read. If the transport fails at any point of a value, the read returns a transport error of the corresponding kind (not open, already open, timed out, end of file, otherwise unknown) carrying the transport's message, never a value.",
  ["fault_sequences","inputs"],"all encodings x chunkings x fault points x io::ErrorKinds; sync and async",
  "All tests read from an in-memory slice that never splits, interrupts or fails.",
  [C,CS,V+"decode.rs",V+"decode_async.rs",ERR],[("read_exact / interrupted-retry",C+", "+V+"decode.rs"),("From<io::Error>",ERR)],["results under fault injection"])
p("C16","Transport write faults are never reported as success",
  "If a write call returns Ok, the transport has accepted every byte of the encoding, whatever short, interrupted (blocking) or not-ready (asynchronous) writes happened; if the transport stops accepting bytes or fails, the write returns a transport error of the corresponding kind. At every moment the transport has received a prefix of the fault-free encoding, and flush reaches the transport and reports its error.",
  ["fault_sequences","crash_points"],"all values x fault points x fault kinds (error, accepts zero bytes, full fixed-size buffer); sync and async",
  "All tests write to a Vec, which never splits, refuses or fails.",
  [CW,CSW,V+"encode.rs",V+"encode_async.rs",ERR],[("write_all",CW+", "+CSW+", "+V+"encode.rs")],["bytes accepted by the transport, Ok/Err"])
p("C17","Varint encoding is correct for every integer of every width",
  "For every integer of every supported width, encoding produces the standard minimal (zigzag for signed types) varint of exactly the announced length, and decoding it - from a slice, from a blocking or from an asynchronous reader, with or without following bytes - gives the integer back and reports or consumes exactly its length. Decoding never accepts an unterminated varint nor, from a reader, one longer than the width allows (from a slice: than ten bytes), never reads past the last byte of the varint, and truncates out-of-range values to the target width.",
  ["inputs"],"all values of 8 integer types; all byte strings up to and beyond the maximal length",
  "Tests try about 210 values of u64 and a handful of others.",
  [V+"decode.rs",V+"decode_async.rs",V+"encode.rs",V+"encode_async.rs"],[("VarInt, VarIntProcessor, read_varint, write_varint",V)],["VarInt / VarIntReader / VarIntWriter and async counterparts"])
p("C18","Every protocol element round-trips, alone and in any sequence",
  "Any valid sequence of protocol writes - messages, nested structs with fields of any type and any ids in any order, lists, sets, maps (also empty), booleans as fields and as elements, integers, doubles bit for bit, strings and byte arrays - is decoded by the matching sequence of reads to the same identifiers and values, synchronous and asynchronous, and by an independent Thrift compact decoder.",
  ["inputs","histories"],"all well-formed protocol call sequences, all field-id jumps in i16, all container sizes",
  "Tests exercise the protocol only through two Parquet values: no messages, sets, maps, doubles, i8, i16 or non-ascending field ids.",
  [C,CS,CW,CSW,MOD],[("TInputProtocol/TOutputProtocol implementations",C+", "+CW+", "+CS+", "+CSW)],["identifiers and values read back"],[LAST,PEND,("pending_write_bool_field_identifier","bool field header waiting for its value",CW+", "+CSW)])
p("C19","Enums are open: every number survives, and names match parquet.thrift",
  "Every 32-bit number converts to each Parquet enum and back unchanged, and is written and read unchanged, whether or not it is a named value; distinct numbers give distinct, unequal enum values. The named constants and the list of known values have exactly the numbers of parquet.thrift.",
  ["inputs"],"all 2^32 numbers x 7 enums",
  "Tests use four named enum values.",
  [GEN],[("From<i32> / From<Enum> conversions, constants, ENUM_VALUES",GEN)],["conversions, reads, writes"])
p("C20","A read or write depends only on its own input, not on others",
  "The result of reading or writing a value is a function of its own input and limit alone: concurrent use from other threads, interleaved asynchronous reads and writes on one thread, earlier operations (including failed, panicking-transport and cancelled ones) and other protocol instances never change it.",
  ["schedules","histories"],"all interleavings of operations over threads and tasks, all histories",
  "Tests run single operations in isolation.",
  [C,CS,CW,CSW,GEN],[("no shared state: all state is owned by a protocol instance",C+", "+CS)],["results under concurrency vs. an independent model"])
p("C21","No undefined behaviour or data race on any input",
  "No sequence of public operations on any input, well-formed or hostile, with any (also misbehaving) transport, on one or several threads, executes undefined behaviour: no out-of-bounds or uninitialised access, no use after free, no leak of read buffers, no data race.",
  ["inputs","schedules","fault_sequences"],"workloads under Miri, AddressSanitizer and (thorough) ThreadSanitizer / MemorySanitizer",
  "The tests run without any sanitizer.",
  ["src/lib.rs",C,CS,V+"decode.rs"],[("forbid(unsafe_code)","src/lib.rs")],["Miri / sanitizer reports"])
p("C22","Reading always terminates with work proportional to bytes consumed",
  "Every read ends after a number of transport calls and allocations proportional to the number of bytes it consumed - also on hostile input, at end of file and with tiny limits - element counts and lengths merely claimed by the input cause no such work of their own, and no loop runs for longer than the bytes consumed warrant; the bytes allocated over the whole read are proportional to the bytes consumed, too.",
  ["inputs","fault_sequences"],"all byte strings x types x limits x transports",
  "Tests read well-formed data and measure nothing.",
  [C,CS,MOD,STR,V+"decode.rs",V+"decode_async.rs"],[("every loop iteration consumes at least one byte or ends",MOD+", "+STR+", "+V+"decode.rs")],["transport call count, allocation count, thread CPU time scaling"])
p("C23","Application errors, messages and checks keep their meaning",
  "An application error written to the wire is read back with the same kind and message (unknown kinds become the unknown kind, unknown fields are ignored, absent fields take the documented defaults), and every error kind's integer code converts back to that kind while all other integers are rejected. The expected-sequence-number, -name, -message-type and required-field checks succeed exactly on matching arguments and otherwise fail with the documented error kind. Wrapping an error, or converting one of the standard library, keeps its kind, message and displayed text, and different kinds are displayed differently.",
  ["inputs"],"all kinds, messages, integers and argument pairs",
  "No test touches errors or messages.",
  [ERR,MOD],[("read/write_application_error, TryFrom<i32>, verify_*",ERR+", "+MOD)],["returned errors"])
p("C24","Metadata values have consistent equality, order, hash and constructors",
  "For all values of every Parquet type: equality holds exactly when all fields are equal, ordering is a total order that compares fields in declaration order and agrees with equality, equal values hash equally, a clone equals its original, the constructor function puts every argument in its field, and every default value equals the constructed one.",
  ["inputs"],"all pairs and triples of values of all types",
  "Tests compare two values for equality.",
  [GEN],[("derived traits, new()",GEN)],["Eq/Ord/Hash/Clone/Default/new"])
p("C25","Boxed and borrowed adaptors are transparent",
  "Using a protocol through a box (or, for output, a boxed or borrowed trait object), and reading from or writing to a transport through a mutable reference, a box or a buffering wrapper, gives the same results, bytes, counts, consumption and errors as using it directly, for every operation.",
  ["inputs","histories"],"all operation sequences x adaptors",
  "No test boxes a protocol.",
  [MOD],[("impl TInputProtocol / TOutputProtocol for Box<P>",MOD)],["results via adaptor vs. direct"])
p("C26","Malformed encodings are rejected, never silently accepted",
  "Input that is not a valid encoding is refused with a protocol error, no later than at the point where it is malformed: strings that are not UTF-8, field or element type codes the compact protocol does not define, boolean elements that are neither true nor false, over-long integers (an error of whatever kind), field-id overflow, containers of 'stop' elements, and messages with a wrong protocol id, version or message type.",
  ["inputs"],"all encodings x all places x all malformations; sync and async",
  "No test reads malformed metadata.",
  [C,CS,V+"decode.rs",V+"decode_async.rs",MOD,STR],[("u8_to_type, collection_u8_to_type, from_utf8, checked_add, TMessageType::try_from",C+", "+MOD)],["Err kind, consumption"],[PEND])
p("C27","Results do not depend on platform, features or build profile",
  "Encodings, counts, decoded values and errors are the same in optimised and unoptimised builds, with and without overflow checks and debug assertions, with and without the async feature, and on little- and big-endian, 32- and 64-bit targets (apart from the documented machine-word size in the read limit).",
  ["configurations","inputs"],"a seeded corpus of operations x {checked, release} x {default, full} x {x86_64, i686, s390x}",
  "Tests run in one profile on one platform.",
  [C,CS,CW,CSW,GEN,V],[("to_le_bytes / from_le_bytes, fixed-width integers, cfg(feature)",C+", "+CW)],["digests of observation logs per configuration"])
p("C28","Whatever the reader accepts, it can write back and re-read",
  "If reading any byte string (well-formed or not) succeeds, the value obtained is a legitimate value: formatting it does not panic, writing it succeeds, and reading that output gives an equal value.",
  ["inputs"],"all accepted byte strings x types",
  "Tests only rewrite values built in Rust.",
  [GEN,C,CW],[("reader/writer pairs",GEN)],["values obtained from mutated and hostile input"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
open(out,"w").write("".join(json.dumps(r)+"\n" for r in rows))
print(len(rows))
