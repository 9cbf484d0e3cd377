//! What each check enumerates and what it takes for granted; written into the evidence files.

const SEQ: &str = "every sequence over a fixed alphabet of operations up to the depth, in every configuration class (one shard, splitting, compacting, both; background work finishing after each operation or only when the client waits), from every initial state listed, each run on the real store and compared operation by operation with the reference model, then again after reopening; distinct = distinct trails of model states";
const SCHED: &str = "every schedule with at most the stated number of preemptions (preemption points: every lock, channel, file, mapped-memory and atomic operation, up to a number of visits per object) of every listed multi-threaded program on the real store; calls and results must be explained by an order of the operations that respects real time and ends in the observed contents; distinct = distinct histories and final contents";
const CRASH: &str = "every sequence of operations up to the depth is run once on the real store while every effect on the directory (file calls and stores into mapped headers) is recorded; for every prefix of the record, and for every data write cut in half, the directory is rebuilt, opened by the real code, compared with the set of allowed contents, used, and reopened; distinct = distinct directory contents with distinct expectations";

const RT: &str = "the controlled runtime (scheduler, interposed libc and thread-sanitizer hooks, reimplemented parking_lot and crossbeam-channel) behaves as the real one in the aspects the store relies on";
const SC: &str = "sequentially consistent memory (weaker orderings of atomics are not enumerated; C27 checks that plain accesses are synchronised)";
const PROC: &str = "a process crash preserves what was written, in program order, up to an arbitrary point (the kernel survives)";
const POWER: &str = "a power failure loses everything written to a file and not synced; creating, renaming and removing files takes effect in order";

pub fn of(id: &str) -> (&'static str, &'static [&'static str]) {
    match id {
        "C01" | "C08" | "C11" | "C14" | "C15" | "C16" | "C25" => (SEQ, &[RT]),
        "C02" | "C09" | "C12" => (SCHED, &[RT, SC]),
        "C17" => ("every schedule with at most the stated number of preemptions of every listed program, with 0, 1 and 2 compaction threads; every call must return, closing must finish, and no schedule may reach a state in which no thread can run or run longer than the step limit; distinct = distinct histories", &[RT, SC]),
        "C27" => ("every schedule with at most the stated number of preemptions of every listed program; vector clocks over every lock, channel, join and atomic flag the store uses; every access to the store's heap structures and mapped tables is checked for an unordered conflicting access; distinct = distinct histories", &[RT, SC]),
        "C03" | "C10" | "C13" | "C31" => (CRASH, &[RT, PROC]),
        "C04" => ("as C03, for creation, splitting, compaction, merging and clearing of stores of one to four shards, including a crash at every point of the recovery from every crash", &[RT, PROC]),
        "C05" => ("every division of the key space into shard files up to the depth, with every assignment of the listed numbers of keys to the shards, merged at every listed level and expected number of keys; result, resulting files, contents and contents after reopening compared with the specification", &[RT]),
        "C06" => ("as C01, and after every sequence the store is iterated, paused after every number of items, and resumed from the cookie", &[RT]),
        "C07" => ("every sequence of modifications up to the depth performed after every number of iterated items; and every schedule of an iteration against writers", &[RT, SC]),
        "C18" => ("as C03, but at every point everything not synced is lost (of one file at a time, and of all), the contents must include all that was written before the last flush began; also every schedule of a flush against writers, and histories in which a background compaction fails at any of its file operations and is resumed", &[RT, POWER]),
        "C19" => ("every schedule of several writers sharing syncs, losing all unsynced data at every point: every acknowledged write is there; and with the n-th sync failing, every caller that relied on it gets the error", &[RT, SC, POWER]),
        "C20" => ("every sequence of operations up to the depth in every configuration class, small concurrent programs under every schedule, and entries of every size at the limits of the size classes: all statistics compared with what is recomputed from the contents and the history; and for every prefix of the recorded effects of every crash program (and of the recovery from it) the number of entries reported afterwards", &[RT, SC, PROC]),
        "C21" => ("the product of key lengths and value lengths around every limit, for every operation, in every configuration class; acceptance is decided by the documented limits, and everything (contents, lengths, ranges, file sizes for rejected calls) is compared before and after", &[RT]),
        "C22" => ("every sequence of opening, closing, dying, writing and clearing by two and three separate processes up to the depth, and every schedule of two threads opening the same directory; one winner at a time, losers change nothing", &[RT]),
        "C23" => ("every file operation of every sequence up to the depth fails (EIO, no space from then on, short, interrupted), once per execution; also during every opening of every crash image; afterwards the store is compared, used, checked for leaks of space, and reopened; every file operation of every thread also fails in every schedule of two concurrent operations", &[RT, SC, "a failed fsync may be retried (no data is lost by it)"]),
        "C24" => ("every alteration (of magic, version, length) of every shard file of stores at rest and interrupted ones, every truncation, and every listed foreign name, under every combination of the options", &[RT]),
        "C26" => ("every division of the key space up to the depth with every leftover that an interrupted split, merge or compaction produces, built as files, opened by the real code and compared", &[RT]),
        "C28" => ("every pattern of operations of the given length is repeated until the directory is byte for byte as it was some repetitions earlier (a proof by periodicity that no further repetition differs), checking the bounds after every operation; also after every schedule of concurrent writers", &[RT, SC]),
        "C29" => ("every pair of built-in types with all listed boundary values and every sequence of typed operations up to the depth, against a typed model and the untyped store", &[RT]),
        "C30" => ("every sequence of modifications up to the depth, divided in every way over the positions of an iteration over a list or queue, forwards and backwards; and every schedule of an iteration against one or two modifications; items that stay are returned exactly once and in order, nothing else than what was there at some time; distinct = distinct observable outcomes", &[RT, SC]),
        "C32" => ("every sequence of operations up to the depth in every configuration class (also with background work finishing after each), every schedule of two concurrent operations, every crash image reopened, every file operation failing while the store is opened, every altered or foreign file: whenever nothing is going on, what is open and mapped is compared with the directory, and after closing or failing to open nothing may be left; every pattern of operations of the given length repeated 120 times: memory must stop growing", &[RT]),
        _ => ("", &[]),
    }
}
