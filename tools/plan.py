"""What each check runs, and how its evidence is to be read."""

SWEEP = ("Values: a systematic sweep (every present/absent combination of optional fields up to 12 of them and samples beyond, every union member, "
         "every integer edge in every integer field, every string and list size class in every string and list field, every constant mined from the sources) "
         "and random values of all 58 types. ")
OPS = "Protocol call sequences: random nested structs, lists, sets, maps, messages and scalars with any ids in any order. "
DIST = "distinct_nontrivial counts distinct fingerprints (hash of type, value/encoding bytes or call sequence) of the cases observed in the first stage; "
HOST = ("Hostile input: token-level mutations of valid encodings, random bytes, huge claimed lengths and counts, and every byte string of up to 2 (thorough: 3) bytes. ")

RULES = {
    "C01": SWEEP + "Each is written by both writers and each output is read by both readers under rough transports. " + DIST + "every value is non-trivial: it is written, read and compared.",
    "C02": SWEEP + "Each encoding is followed by other bytes; also runs of values back to back, seeks, single calls and skips; the oracle is the position of the transport after each call. " + DIST + "each case checks at least one position.",
    "C03": SWEEP + OPS + "The oracle is the number of bytes the monitored transport received during the call. " + DIST + "each compares at least one count.",
    "C04": SWEEP + "The output is decoded by an independent decoder and compared with the value under an independently written schema. " + DIST + "each output is decoded completely.",
    "C05": SWEEP + "Each is encoded by an independent encoder in varied conforming ways (field order, header forms) and read by both readers. " + DIST + "each compares a returned value.",
    "C06": SWEEP + "Unknown fields of every wire type are injected at random and at every place. " + DIST + "each contains at least one unknown field.",
    "C07": "Full and random values of all struct and union types with every field removed in turn at every nested struct, and every union with none, several or unknown members; random subsets. " + DIST + "each is a distinct encoding whose acceptance or rejection is compared with the schema.",
    "C08": HOST + "Read as every type, element and skip, under many limits and misbehaving transports, in builds with and without overflow checks. " + DIST + "each is a distinct hostile input.",
    "C09": HOST + "Each read is observed by the allocator; the oracle is peak <= factor*limit + constant. " + DIST + "each is a distinct (input, limit) pair.",
    "C10": SWEEP + OPS + "An independent model computes the charge of each encoding; limits exactly at, just below and well below it are tried, for one value and for sequences through one reader. " + DIST + "each compares at least one limit decision.",
    "C11": "Values nested 1 to 130 deep of random and uniform container mixes x depth limits x {skip call, unknown field}, sync and async. " + DIST + "each compares one skip outcome with the nesting depth.",
    "C12": SWEEP + HOST + "Every input is read by both readers under different transports; results, error kinds and positions are compared. " + DIST + "each is a distinct input.",
    "C13": SWEEP + OPS + "Every write is done by both writers; bytes and counts are compared. " + DIST + "each compares complete outputs.",
    "C14": "Every proper prefix of encodings of all types (foreign ones and ones with unknown fields included), of call sequences and of skips is read by both readers; the oracle is an end-of-file transport error. " + DIST + "each is a distinct encoding all (or, when long, up to 400) of whose prefixes are tried.",
    "C15": "A fault of every I/O error kind is injected at every offset of encodings of all types, call sequences and skips, or the data is delivered in arbitrary pieces. " + DIST + "each is a distinct encoding all (or, when long, a sample) of whose offsets are tried.",
    "C16": "A fault (error of every kind, zero-length write, full fixed buffer) is injected at every offset of the output of all types and of call sequences; the oracle is the transport's content and the returned error. " + DIST + "each is a distinct output all (or, when long, a sample) of whose offsets are tried.",
    "C17": "All 8- and 16-bit integers, edges and random integers of every width, all byte strings of up to 2 bytes and random ones up to 24, with trailing bytes, from slice, blocking and asynchronous readers; the oracle is an independent varint model. " + DIST + "each is a distinct integer or byte string.",
    "C18": OPS + "Read back by the matching calls and decoded by an independent decoder. " + DIST + "each is a distinct call sequence.",
    "C19": "All 2^32 numbers for conversion (thorough; quick: every 128th block completely), edges and random numbers for I/O; named values against an independent table of parquet.thrift. " + DIST + "each is a distinct number written and read.",
    "C20": "Histories of reads and writes on several threads and interleaved tasks, with failed, panicking and cancelled operations between them; every result is compared with the independent model's. " + DIST + "each is a distinct history (schedule of polls, or set of concurrent operations).",
    "C21": "The workloads of all other checks in miniature, under Miri (interpreter), AddressSanitizer + LeakSanitizer and, thorough, ThreadSanitizer and MemorySanitizer; leaks also by the allocator monitor. " + DIST + "each is a distinct case of those workloads executed under a sanitizer.",
    "C22": HOST + "Transport calls, allocations and thread CPU time of every read are compared with the bytes consumed. " + DIST + "each is a distinct (input, limit) pair.",
    "C23": "All error kinds, random messages, foreign encodings of application errors, integer codes near all edges and in complete blocks, argument pairs of the verify functions. " + DIST + "each is a distinct error, code or argument pair.",
    "C24": SWEEP + "Equality, order, hash, clone, constructor and default are compared with the field-wise model. " + DIST + "each compares at least one pair.",
    "C25": OPS + SWEEP + "Everything is done directly and through every adaptor under identical transports, with and without faults. " + DIST + "each compares complete observations.",
    "C26": "One malformation (bad UTF-8, undefined type code, bad boolean element, over-long integer, field id overflow, stop container, bad message header) at a random or every place of valid encodings of all types, call sequences and skips; the oracle is an error and the position. " + DIST + "each is a distinct malformed input.",
    "C27": "A seeded corpus of reads, writes, skips and varints (valid and hostile) is executed in each configuration and the digests of all observations are compared. " + DIST + "each is a distinct observation.",
    "C28": HOST + "Whatever is accepted is formatted, written by both writers and re-read. " + DIST + "each is a distinct input that was accepted.",
}

LEVELS = {"C14": "fault_enumeration", "C15": "fault_enumeration", "C16": "fault_enumeration"}

ASSUME = {
    "*": ["Held on the executions observed, nothing more.",
          "The independent model of the Thrift compact protocol and the table of parquet.thrift in /verif/harness/src are right."],
}

CLAIMED = ["C%02d" % i for i in range(1, 29)]


def S(build, **k):
    return dict(build=build, **k)


# groups that are too slow for an interpreter even one case at a time
MIRI_SKIP = ("C15/hostile-splits,C22/claims,C17/all-strings-2,C17/dense-32-bit,C22/large,C26/every-place,C18/id-jumps,C11/given-limits,"
             "C18/sessions,C14/nothing-there,C11/unknown-fields,C08/towers,C09/crowds,C02/sequences,C18/deep,C12/short,C08/short,C28/short,"
             "C22/short,C18/sizes")


def miri(ms, deadline):
    return S("miri", shards=8, memory=True, tier="mini",
             args=["--group-ms", str(ms), "--deadline", str(deadline), "--tiny", "--threads", "1", "--skip", MIRI_SKIP])


def san(build, ms, *more):
    return S(build, memory=True, tier="quick", args=["--group-ms", str(ms), "--skip", "C20/repeats"] + list(more))


TINY = ["--tiny", "--threads", "1"]


def interpreted(build, scale):
    return S(build, digest="tiny", shards=8, by="--part", tier="mini", args=TINY + ["--scale", str(scale)])


def STAGES(prop, tier):
    full = tier == "thorough"
    if prop == "C21":
        if full:
            return [S("checked", memory=True), miri(60000, 3600), san("asan", 5000), san("tsan", 5000), san("msan", 3000)]
        return [san("asan", 300), miri(1500, 100)]
    if prop == "C27":
        n = 3 if full else 0.15
        return [S("checked", digest="full"), S("release", digest="full"), S("noasync", digest="full"), S("debug", digest="full"),
                S("checked", digest="tiny", tier="mini", args=TINY + ["--scale", str(n)]),
                interpreted("miri-i686", n), interpreted("miri-s390x", n)] + ([interpreted("miri", n)] if full else [])
    if prop == "C08" and not full:
        return [S("checked"), S("release")]
    return [S("checked"), S("release")] if full else [S("checked")]


TECH = {
    "*": "runtime monitoring: real code under generated workloads, results judged online by an independent reference model",
    "C08": "runtime monitoring: hostile-input workloads with panic, abort and stack-overflow detection, in checked and release builds",
    "C09": "runtime monitoring: allocator instrumentation bounding live memory under hostile inputs",
    "C20": "runtime monitoring: concurrent, interleaved and cancelled histories checked against the sequential model",
    "C21": "sanitizers: Miri, AddressSanitizer/LeakSanitizer, ThreadSanitizer, MemorySanitizer, and allocator leak accounting",
    "C14": "runtime monitoring with exhaustive truncation of every workload encoding",
    "C15": "runtime monitoring with fault injection at every read offset",
    "C16": "runtime monitoring with fault injection at every write offset",
    "C22": "runtime monitoring: transport-call, allocation and CPU accounting against bytes consumed",
    "C27": "runtime monitoring: differential observation digests over build configurations and interpreted targets",
}
NOTES = {
    "*": "Observed on generated executions only; trusts the harness's own model of Thrift compact and parquet.thrift, written independently of /repo.",
}
