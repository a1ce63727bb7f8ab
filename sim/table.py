"""per-property run counts and the wording used in the evidence files"""

COMPONENTS = {
    "real": ["multibag package (all modules, unmodified, from /repo)", "bagit library",
             "PyFilesystem2 (fs: osfs, zipfs, tarfs)", "zipfile/tarfile/shutil of the standard "
             "library", "kernel file system (tmpfs scratch directory) beneath the seam"],
    "simulated": ["directory listing order", "I/O errors, full disk, hard-link refusal, short "
                  "and torn transfers", "process death and restart", "clock (time.time)",
                  "string hash seed", "remote fetcher (C19)", "scheduler of concurrent jobs (C20)"],
    "stub": ["none of the package's own code is stubbed"],
}
COMMON_ASSUMPTIONS = [
    "file-system state behaves as on a local POSIX file system; power-loss reordering of "
    "un-synced data is not modelled (the package never promises it)",
    "stat-family calls do not fail",
    "heads, and restored or amended bags, have tag files in UTF-8 (other encodings are covered where bags are "
    "read, split or combined); names contain no control characters, $ or ~",
]
TABLE = {}


NOTE = ("Seeded sampling, not proof: a clean batch is evidence over the runs counted in the "
        "evidence file. Trusted: the independent bag reader/writer and reference models in "
        "/verif/sim, the kernel's file system beneath the seam, CPython. ")


def prop(pid, quick, thorough, over, rule, wall=150, note="", assumptions=(),
         level="exploration"):
    TABLE[pid] = {"quick": quick, "thorough": thorough, "rule": rule, "wall": wall, "over": over,
                  "note": NOTE + note, "assumptions": list(assumptions), "level": level}


NT = " Non-trivial: the package performed at least 10 file-system operations"
NF = NT + " and at least one planned fault actually fired."
NT = NT + "."

prop("C01", 6500, 60000, "source bags, split strategies, storage forms, listing orders and benign "
     "I/O behaviour", "random source bag, splitting strategy, storage form of every piece, "
     "restore destination and benign environment; split, repack, restore, compare." + NT)
prop("C02", 9000, 60000, "source bags (head bags among them), strategies, metadata and listing orders",
     "random source bag (20% head bags), split, metadata and withholding list; every written bag is "
     "read with an independent reader and compared with what the source says." + NT)
prop("C03", 9000, 50000, "trees, size multisets, limits, reservations and listing orders",
     "random sizes and limits (some met exactly); the plan is made under four listing orders and "
     "the written bags measured." + NT)
prop("C04", 7000, 40000, "the operation of a split at which an I/O error or full disk strikes",
     "random source and strategy; a failure-free dry run numbers the operations, then six fault "
     "experiments (single, burst, persistent, full disk) are placed, stratified by operation kind."
     + NF)
prop("C08", 5000, 50000, "aggregations (overlaps, deletions, fetch lists, algorithms, forms), "
     "destinations and listing orders", "random aggregation written by the harness; restored in "
     "two different ways; compared with the reference model of the combination rules and with "
     "each other." + NT)
prop("C05", 2600, 40000, "the operation of a restore at which an I/O error or full disk strikes",
     "random aggregation, storage forms and destination; a failure-free dry run numbers the "
     "operations, then six fault experiments are placed, stratified by operation kind." + NF)
prop("C09", 9000, 60000, "amendees, amending bags, lookup selections, member details, chains and "
     "listing orders", "random aggregation or plain bag, added bags with options, amendment chains "
     "and conversions; the new head is compared with the reference model through an independent "
     "reader and through the package's own reading API." + NT)
prop("C06", 4500, 50000, "the operation of an amendment or conversion at which an I/O error or "
     "full disk strikes", "random amendment or conversion; a failure-free dry run numbers the "
     "operations, then seven fault experiments are placed, stratified by operation kind." + NF)
prop("C13", 3500, 50000, "the operation of an amendment or conversion at which the process dies",
     "random amendment or conversion; the process is killed at seven chosen operations (sometimes "
     "twice in a row), then the operation is repeated in a new process and compared with the "
     "reference model." + NF)
prop("C12", 1200, 25000, "the operation (or the byte of a write) of a restore at which the process "
     "dies", "random aggregation; the restore is killed at six chosen operations, torn writes "
     "included, and repeated into the same and into a fresh destination." + NF)
prop("C11", 3500, 35000, "the operation (or the byte of a write) of a split at which the process "
     "dies", "random source and strategy; the split is killed at seven chosen operations, torn "
     "writes included, the remains inspected, and the split repeated into a fresh directory." + NF)
prop("C07", 5000, 40000, "operations, the operation at which an error strikes or the process dies, "
     "and later edits of outputs that share storage with the inputs",
     "random split, restore, amendment or inspection, failure-free, failing and killed; then the "
     "outputs (hard-linked where the platform allows) are modified through the package; the "
     "inputs' content and names are compared with a snapshot after every step." + NF)
prop("C14", 16000, 100000, "sequences of table operations, saves, failures while saving and re-opens",
     "random initial tables and 6 to 40 operations on a head bag's three tables, mirrored in a model; "
     "compared through the handle, a read-only handle, a packed copy and an independent reader of "
     "the files; saves are failed or killed at chosen operations." + NT)
prop("C15", 3000, 40000, "bags, storage forms, archive layouts and listing orders",
     "random bag (30% damaged, 25% head bags) stored in four forms with random archive order and "
     "directory entries; the full reading API is compared between the forms and with an "
     "independent reader." + NT)
prop("C16", 3000, 40000, "bags, kinds and places of damage at rest, storage forms, read errors",
     "random bag; four variants, each sound, benignly edited or damaged in one of 30 ways, in a random "
     "storage form; every validation entry point is asked and compared with an independent checker; "
     "validations are repeated with read, open and listing errors at chosen operations." + NT,
     assumptions=["malformed Payload-Oxum and listing errors through the read-write class are left out: "
                  "they are handled inside the third-party bagit library"])
prop("C17", 3500, 60000, "hand-edited, torn and damaged metadata and multibag tag files, storage forms, "
     "read errors", "random head or member bag whose bag-info.txt, member list, lookup and aggregation "
     "info are edited line by line, torn or removed; both validators, with and without a results "
     "object and for several wanted issue types, are compared rule by rule with an independent "
     "reading of the profile." + NT,
     assumptions=["only rules on which profile and validator text agree are judged; the others are "
                  "left open (three-valued oracle)"])
prop("C10", 1500, 30000, "histories of splits, conversions and amendments, with packing, unpacking, "
     "crashes and I/O errors in between", "random first version (split, plain, converted or foreign "
     "aggregation), one to five amendments or head splits with added, replaced, deleted and returned "
     "files; amendments are killed or failed and redone; every version is restored and compared with "
     "the model; the newest lookup is compared with the bags." + NT)
prop("C18", 8000, 40000, "interleavings of caller actions with the steps of a split, naming iterators, and "
     "the operation at which an error strikes", "random source (30% head bags), plan and naming iterator; an "
     "undisturbed stepwise run is checked and kept; then the caller packs, moves, deletes, edits or adds to "
     "what it was handed between the steps, a second iterator may run interleaved, and errors are placed in "
     "chosen steps; after every step the new bag is compared with the kept one and the rest of the world "
     "with its state before the step." + NT)
prop("C19", 1300, 20000, "splits of members into cached and remote, delivery forms, and sequences of fetch "
     "faults and process deaths", "random aggregation, cache content and delivery forms; the fetch function is "
     "simulated and logs its calls; five fault trials per run (errors, nothing, missing path, incomplete, "
     "damaged or truncated deliveries), each followed by a retry with the fetcher healthy; restores are also "
     "killed or failed and retried over the same cache." + NT)
prop("C20", 4000, 30000, "interleavings of the file-system operations of two to four jobs, and the operation at "
     "which one of them fails or dies", "random shared store and two to four jobs (split, restore, restore in "
     "place, amend, convert, validate, inspect), each first run alone; then run together, the baton being "
     "passed at 1 to 400 chosen operations; half of the runs fail or kill one job; results, outputs and "
     "shared inputs are compared with the solo runs." + NT)
prop("C21", 8000, 60000, "files, kinds of damage at rest, inputs, operations and chains of operations",
     "random split, restore, amendment, conversion or chain (split, split of the head, repacking, restore) with "
     "one to three payload files of an input altered, cut, extended, exchanged, lost or slipped in beforehand "
     "(or between the operations); manifest entries, neighbours and the verdict on every output bag are "
     "compared with the model." + NT)
prop("C22", 6000, 60000, "bags, edits, file sizes from nothing to terabytes, operations, and the operation at "
     "which an error strikes or the process dies", "random split, restore, amendment, conversion or series of "
     "edits with updates of the size tags, undisturbed, failed or killed and redone; every size stated in the "
     "resulting bags is compared with the sizes of their files." + NT,
     assumptions=["Bag-Size is an estimate: accepted within 64 bytes and the rounding to four digits, with or "
                  "without the sizes of directories"])
prop("C23", 4000, 50000, "aggregations, orders of the steps, overwriting, paths left out, storage forms, and the "
     "operation of a step at which an error strikes or the process dies", "random aggregation restored with "
     "single calls of a restorer (in any order, repeated, overwriting or not), compared with a model after every "
     "call; chosen steps are failed or killed and begun anew; some end with a complete restore." + NT)
prop("C24", 6000, 80000, "sequences of operations on split plans, storage forms, listing orders, and the operation at "
     "which a read error strikes", "random plan, made by a splitter or filled by hand (paths assigned twice or not at "
     "all, unknown paths), completed, named in either order with enough or too few names and asked about itself, some "
     "questions failing; mirrored in a model; finally applied and compared with what was written." + NT)
prop("C25", 6000, 60000, "hostile and mistaken paths in tag files, archives and metadata, operations, and the operation at "
     "which the process dies", "random aggregation with one or two paths in its tag directory setting, tables, "
     "manifests, fetch list or archives that lead outside of the bag (or to its payload); one operation; everything "
     "around the bag being written is compared with a snapshot, also after a kill." + NT)
