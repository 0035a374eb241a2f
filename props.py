"""What each check simulates; used for the search parameters and the evidence."""

COMMON_STUBS = [
    "Go scheduler: every goroutine of the code under test is a task of sim/hook, one runs at a time, switches at seeded points",
    "channels: real, operations performed when they cannot block, ready select cases drawn from the seed",
    "sync, os, net, net/http server, log exit, flag, time: shims in sim/shim (semantics of the originals, under the simulator)",
    "map iteration order and sync.Pool retention: decided by the seed",
]
COMMON_ASSUMPTIONS = [
    "switches happen between statements (and inside split read-modify-write statements) of /repo's code, not inside third-party packages",
    "third-party packages (prometheus client, yaml, go-ucfg, gogo protobuf, multierr) run as they are and are trusted",
    "seeded sampling: runs not reached by a seed are not covered",
]

PIPE = ["pkg/pipeline", "pkg/processor", "pkg/processor/registry", "pkg/processor/{set,append,lowercase,uppercase}",
        "pkg/event", "pkg/eventutil", "pkg/config", "pkg/metrics"]
PROCS = "failing/dropping/cancelling processors: simulated processor types registered with the real registry"
CLI = ["cmd/sawmill (its main)"] + PIPE + ["pkg/serialization/mapinterface"]
CLI_STUB = "stdin, stdout, stderr, definition file, exit status, listening socket: simulated, with injected faults"

PROPS = {
    "C01": dict(
        batch=150, race=0.5, real=PIPE, stubs=[PROCS],
        rule="A seed gives a pipeline (nested handlers, built-in and failing processors), events and 2-6 caller tasks "
             "which share it, and an interleaving policy; each result is compared with the same event alone on a fresh pipeline.",
        states="distinct results (event content or error text) returned to a caller"),
    "C02": dict(
        batch=300, race=0, real=PIPE, stubs=[PROCS],
        rule="A seed gives a pipeline and a history of events (repeated, failing, dropped, changed by their owner after "
             "return), executed forwards and backwards; each result is compared with a fresh pipeline and with value semantics.",
        states="distinct results returned to a caller"),
    "C03": dict(
        batch=500, race=0, real=PIPE, stubs=[PROCS],
        rule="A seed gives a pipeline with handlers at any depth and a failure decision per processor execution and event; "
             "trace and result are compared with the reference model of failure handling.",
        states="distinct (trace, result) pairs"),
    "C04": dict(
        batch=300, race=0, real=PIPE + ["cmd/sawmill (its main)"], stubs=[PROCS, CLI_STUB],
        rule="As C03 with processors that drop or cancel at any position; a part of the runs goes through the command line tool.",
        states="distinct (trace, result) pairs"),
    "C05": dict(
        batch=150, race=0.5, real=PIPE, stubs=[PROCS],
        rule="A seed gives callers, a pipeline and a scraper task that reads all counters at seeded moments; counters at rest "
             "are compared with the executions that happened, counters in between with the bounds at that moment.",
        states="distinct counter vectors seen by a scrape"),
    "C06": dict(
        batch=200, race=0, real=CLI, stubs=[CLI_STUB, PROCS],
        rule="A seed gives an input stream, its segmentation into reads, a pipeline and possibly a kill at any step; after "
             "every read and write the output is compared with what the input consumed so far demands.",
        states="distinct (output, exit status) pairs"),
    "C07": dict(
        batch=200, race=0, real=CLI, stubs=[CLI_STUB, PROCS],
        rule="A seed gives an input stream and a fault: read error at any byte, over-long line, unreadable or invalid "
             "definition, bind failure; exit status and output are judged.",
        states="distinct (output, exit status) pairs"),
    "C08": dict(
        batch=200, race=0, real=CLI, stubs=[CLI_STUB, PROCS],
        rule="A seed gives write faults (errors, short writes, for a while or for ever) on stdout or stderr, or a kill at a "
             "write; the line structure and the report of lost lines are judged.",
        states="distinct (output, exit status) pairs"),
    "C09": dict(
        batch=150, race=0.5, real=PIPE, stubs=["constructors that fail at chosen attempts", PROCS],
        rule="A seed gives tasks that build pipelines from valid and broken definitions (shared and private) and use them, "
             "with constructor failures at chosen attempts.",
        states="distinct outcomes of builds and calls"),
    "C10": dict(
        batch=200, race=0, real=["pkg/serialization/protobuf", "pkg/serialization/mapinterface", "pkg/event", "pkg/eventutil", "pkg/pipeline"],
        stubs=["store between writer and reader: simulated, with torn, lost, duplicated, swapped, flipped and overwritten blocks"],
        rule="A seed gives events, their format (protobuf or JSON), storage faults and the segmentation of reads; what is read "
             "back is compared with the original, or must be refused or usable.",
        states="distinct decoded events"),
    "C11": dict(
        batch=200, race=0.5, real=["pkg/event", "pkg/eventutil", "pkg/serialization/protobuf", "pkg/serialization/mapinterface"],
        rule="A seed gives a history of operations per event, checked step by step against a plain tree, then concurrent "
             "readers of all events.",
        states="distinct event contents"),
    "C12": dict(
        batch=60, race=0, real=["pkg/processor/generate (its main)", "docs/generate (its main)", "internal/proctemplate"],
        stubs=["file system: a scratch directory behind the os shim, with injected errors, torn writes and kills"],
        rule="A seed gives a definitions file, edits between runs and a sequence of generator runs with faults (error, short "
             "read, torn write or kill at any file system call); after a final clean run the tree is compared with an "
             "uninterrupted run on a fresh tree.",
        states="distinct (tree, exit status) pairs"),
    "C13": dict(
        batch=50, race=0.5, real=PIPE + ["cmd/sawmill (its main)", "prometheus HTTP handler"],
        stubs=["network: listeners and requests are simulated; a client may disconnect mid-response", PROCS],
        rule="A seed gives pipelines that are registered, used and unregistered by tasks, concurrent scrapes through the real "
             "handler, disconnecting clients and bind failures; every scrape is judged against what was registered.",
        states="distinct scrape results"),
    "C14": dict(
        batch=150, race=0.5, real=["pkg/processor/registry", "pkg/processor", "go-ucfg"],
        stubs=["constructors that fail or panic at chosen attempts"],
        rule="A seed gives tasks that register, construct and list processors on one registry, including failing ones; the "
             "history is checked against a map with linearizable operations.",
        states="distinct registry contents and outcomes"),
    "C15": dict(
        batch=150, race=0, real=CLI,
        stubs=[CLI_STUB, "runtime/pprof: writes seeded content in seeded pieces instead of samples",
               "profile files: a scratch directory behind the os shim, with injected errors, torn writes and kills", PROCS],
        rule="A seed gives an input stream, the profiling options, and a fault of a profile file (cannot be created, error or "
             "kill at any operation, short write) or of the command's other I/O; output, exit status, files and the time at "
             "which profiling starts and stops are judged.",
        states="distinct (output, exit status) pairs"),
    "C16": dict(
        batch=100, race=0, real=CLI, stubs=[CLI_STUB, PROCS],
        rule="A seed gives a definition and an input and 2-4 executions of the command which differ in read segmentation, "
             "schedule, map orders, random numbers, scrapes, profiling and bind failure; their outputs must be the same bytes.",
        states="distinct (output, exit status) pairs"),
}
