"""Which function decides which property, and by what method."""
import c_hier
import c_pure
import c_more
import c_conc
import c_dist
import c_build

CHECKS = {}
CHECKS.update(c_hier.CHECKS)
CHECKS.update(c_pure.CHECKS)
CHECKS.update(c_more.CHECKS)
CHECKS.update(c_conc.CHECKS)
CHECKS.update(c_dist.CHECKS)
CHECKS.update(c_build.CHECKS)
INFO = {}
NOT_APPLICABLE = {}

TV = "TLA+ trace validation (TLC) of recorded histories"
MBT = "replay of every transition of an exhaustively checked TLA+ model"
HIER = ("Hierarchy.tla decides: small configurations are explored exhaustively by TLC and every "
        "transition is executed on the library, and random histories recorded from the library are "
        "accepted or rejected by TLC. ")
TRUST = ("Trusts TLC, the harness's transcription of calls and results, and independent decoders for "
         "looking at stored values; histories are sampled (seeded), the small configurations are not.")

NOTES = {
    "C01": (MBT + "; " + TV, HIER + TRUST),
    "C02": (MBT + "; " + TV, HIER + "Keys are compared with the whole content of the store. " + TRUST),
    "C03": (MBT + "; " + TV, HIER + "The region semantics are per cell, for C and F layouts. " + TRUST),
    "C08": (MBT + "; " + TV, HIER + "Includes documents with members the library does not know; floating point "
            "attributes are decided bit by bit by Numbers.tla (known finding: many digits). " + TRUST),
    "C09": (MBT + "; " + TV, HIER + TRUST),
    "C10": (MBT + "; " + TV, HIER + TRUST),
    "C11": (MBT + "; " + TV, HIER + TRUST),
    "C13": (MBT + "; " + TV, HIER + "After each refused call the whole store is compared. " + TRUST),
    "C20": (MBT + "; " + TV, HIER + "Buffers are variables of the model. " + TRUST),
    "C22": (MBT + "; " + TV, HIER + "The same specification accepts the filesystem store and in-memory "
            "stores of several designs, with several suffixes. " + TRUST),
}

TAB = "TLA+ trace validation (TLC) of recorded calls"
NOTES.update({
    "C04": ("TLC exhaustive check of Geometry.tla; " + TAB, "Geometry.tla defines grids, boxes and their "
            "enumeration cell by cell and is checked exhaustively against closed forms for small extents; the "
            "library's answers for all small grids and boxes, and for extents up to 2^64-1 (as limbs, BigNat.tla), "
            "are accepted or rejected by TLC. Large extents are sampled."),
    "C05": ("TLC exhaustive check of ChunkFormat.tla; " + TAB, "ChunkFormat.tla gives the bytes of a chunk's "
            "elements; values stored by the library are decoded by independent decoders, and values encoded "
            "independently are read by the library, for every type, byte order, codec and configuration, both "
            "feature sets. Trusts Python's zlib/bz2/lzma and the harness's own LZ4 frame code."),
    "C06": ("TLC exhaustive check of Metadata.tla; " + TAB, "Metadata.tla relates descriptions, documents (as sets "
            "of leaves) and what programs see; documents stored and loaded by the library are decided by TLC. "
            "Sampled over all types, codecs and configurations; documents are parsed by Python's json. Floating point numbers "
            "are decided bit by bit by Numbers.tla (known finding: many digits)."),
    "C07": ("TLC exhaustive check of Metadata.tla; " + TAB, "Metadata.tla says which documents must load, must be "
            "refused, or are unclear; damaged documents, types, attribute documents and chunk values are decided "
            "by TLC. Damage to values that carry no checksum is limited to what is detectable."),
    "C12": ("TLC exhaustive check of Paths.tla; " + TAB, "Paths.tla says where the keys of a path argument lead; all "
            "sequences of components up to length 4 (thorough: 6) and longer ones sampled, for every operation, as "
            "an unprivileged user deep inside scratch directories whose whole content is compared."),
    "C18": ("TLC exhaustive check of Open.tla; " + TAB + "; " + TV, "Open.tla says which entry points open, what "
            "creation leaves and what handles report; recorded openings of damaged, foreign and fresh directories "
            "are decided by TLC, and histories through handles of two processes by Hierarchy.tla. Version syntax "
            "beyond plain numbers is left open."),
    "C21": ("TLC exhaustive check of Fill.tla; " + TAB + "; " + TV, "Fill.tla gives the bits a declared value "
            "denotes (exact integers, correctly rounded floats), checked exhaustively against definitions for small "
            "formats; values read by four routes are decided by TLC. There, floats are limited to literals every JSON "
            "parser reads exactly, and to 20 bits for f16; others are decided by Numbers.tla (known finding: many digits)."),
    "C23": ("TLC exhaustive check of Types.tla; " + TAB, "Types.tla says which calls are refused and what accepted "
            "ones do to the bytes stored; every pair of declared type (all core types and byte orders, raw sizes, "
            "extension types with every fallback and none) and element type is called in every way."),
})

SCHED = "linearizability against Concurrent.tla of schedules enumerated at system calls (TLC trace validation)"
CONC = ("Concurrent.tla lets each call take effect at one instant between invocation and return (subset construction "
        "in TLC); the library runs in threads and in processes under a preloaded scheduler that enumerates the "
        "interleavings of its file-system calls up to a preemption bound and samples others, and each distinct "
        "history is accepted or rejected by TLC. MCConcurrent and MCFsStore check the designs themselves exhaustively. ")
NOTES.update({
    "C15": (SCHED, CONC + "Removal concurrent with creation or writes below the removed node, and concurrent partial "
            "writes of one chunk, are outside the property. Interleavings inside one system call are the kernel's."),
    "C16": (SCHED, CONC + "Locks held by others are flock(2) locks taken by the harness; values are looked at without "
            "locks at every scheduling point. " + "Locks are advisory."),
    "C19": (SCHED, CONC + "Chunks, arrays and nodes are disjoint; opening the hierarchy concurrently is included."),
    "C24": (SCHED, CONC + "Same metadata documents are read and changed concurrently; known findings are listed by "
            "the deviation of the specification they need."),
})

DIST = "injection of every failure and interruption at the library's system calls, decided by Disturb.tla (TLC)"
NOTES.update({
    "C14": (DIST, "Disturb.tla relates what is stored, what a disturbed call reported, and what later calls see. Each "
            "call of a family of operations is run once per file-system call it makes and per way that call can fail "
            "(and short transfers, interruptions by signals), on the library itself under a preloaded shim, and on "
            "stores in memory whose readers and writers fail. Failures are injected at the libc boundary; kernels "
            "that accept data and lose it later are not modelled."),
    "C17": (DIST, "Disturb.tla says what a stop of the process at any instant may leave, checked exhaustively for "
            "small hierarchies; the library is killed before and after each file-system call of each operation "
            "(twice for some), and every later read, listing, repetition and repair is decided by TLC. Stops of the "
            "machine (loss of the page cache) are not covered; known findings are listed by the deviation needed."),
})

NOTES.update({
    "C25": ("TLC exhaustive check of Builds.tla; " + TAB + " and histories of several programs",
            "Builds.tla says which codecs a set of features offers, what names mean, and what programs of different "
            "builds may do to one hierarchy; checked exhaustively for all 64 builds (names) and the builds that differ "
            "for the codecs of small hierarchies. Four builds of the harness (default; all codecs in pure Rust; none; "
            "some) take turns on one directory, and every call is decided by TLC. The four stand for the sixty-four; "
            "a build that does not compile is left out, and named in the evidence."),
})


def run(prop, rep, tier):
    CHECKS[prop](rep, tier)
