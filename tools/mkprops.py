#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list lives here in readable form)."""
import json, os
SP, RE, AM = "multibag/split.py", "multibag/restore.py", "multibag/amend.py"
EX, BG, MB = "multibag/access/extended.py", "multibag/access/bagit.py", "multibag/access/multibag.py"
VH, VM, VB, VV = ("multibag/validate/headbag.py", "multibag/validate/member.py",
                  "multibag/validate/bag.py", "multibag/validate/base.py")
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Splitting a bag and restoring the pieces gives back the original bag",
 "Any valid bag that is split into multibags and then restored from its head bag yields a valid bag with byte-identical payload and extra tag files, the same empty directories, the same checksums, and the same bag-info metadata (apart from recomputed size tags). This holds for every splitting strategy and size limit, with each piece kept as a directory or packed as zip, tar, tgz or tar.bz2, restored in place or elsewhere, and regardless of directory listing order, hard-link availability, short reads and writes, or clock jumps.",
 ["inputs", "configurations", "schedules", "fault_sequences"],
 "every source bag tree, splitter and size limit, serialization of source and of each piece, destination choice, listing order, benign I/O behaviour (link refusal, short transfers, clock jumps)",
 "The tests split two fixed sample bags and restore them in the kernel's own listing order with no I/O variation; names, nesting, sizes, formats and environment behaviour are unbounded.",
 [SP, RE, EX, BG], [("plan, apply_iter", SP), ("BagRestorer.restore, _restore_from, _update_manifests", RE), ("replicate, walk, nonstandard", EX)],
 ["the restored directory tree", "its manifests and bag-info.txt", "return/raise of split() and restore_bag()"])

prop("C02", "Every piece of a split is a sound multibag and the head describes them truly",
 "Each bag written by a split is a valid bag accepted without errors or warnings by the package's own member (or head) validators; every payload and extra tag file of the source appears in exactly one of them with its recorded checksums carried over and a correct payload size tag. The last bag written is the only head: its member list names exactly the written bags in order with itself last, its lookup maps every file to the one bag that holds it, and source bag-info metadata is passed on (or withheld, or re-labelled as belonging to the source) as documented.",
 ["inputs", "configurations", "schedules"],
 "every source bag, strategy, naming scheme, metadata, withheld-metadata list, listing order; also sources that are themselves head bags and plans completed automatically",
 "Tests check a handful of files in one or two sample splits; the statement ranges over all trees and metadata.",
 [SP, EX, MB, VH, VM], [("SplitPlan.apply_iter, complete_plan, _record_hash", SP), ("nonstandard", EX)],
 ["the written bag directories", "member-bags.tsv, file-lookup.tsv, bag-info.txt, manifests", "the validators' results"])

prop("C03", "Split plans honour size limits and head reservations, whatever the listing order",
 "A size-limited split never puts more file data in an output bag than the maximum, except a bag whose only non-empty file is itself larger than the maximum; files reserved for the head bag land in the head bag and in no other (a final bag formed to hold reserved files is exempt from the limit). The target size is exceeded by at most the one file that crosses it, and the distribution of files depends only on the source's content, not on directory listing order.",
 ["inputs", "configurations", "schedules"],
 "every tree and multiset of file sizes, maximum and target, reservation list, both strategies, every listing order",
 "Tests use one sample bag with two limits and the host's listing order.",
 [SP], [("WellPackedSplitter._apply_algorithm", SP), ("NeighborlySplitter._apply_algorithm", SP), ("_sorted_files, complete_plan", SP)],
 ["the plan's manifests", "contents of the written bags"])

prop("C04", "A split that hits an I/O failure reports it instead of losing data",
 "If any file-system operation fails while a bag is being split (reading, listing, creating, writing or copying, including a full disk), the split raises an error, unless every bag it produced is exactly as complete and correct as in a failure-free run. It never returns normally with a missing, truncated or unlisted file.",
 ["fault_sequences", "inputs", "configurations"],
 "every operation of the split at which an error (EIO, ENOSPC, EACCES, EMFILE, full disk) can be returned, for every source and configuration",
 "Tests inject no I/O failure at all.",
 [SP, EX], [("replicate error handling", EX), ("apply_iter existence checks", SP), ("walk", EX)],
 ["raise/return of split() and of each iteration step", "the written bags"])

prop("C05", "A restore that hits an I/O failure reports it instead of losing data",
 "If any file-system operation fails while an aggregation is being restored, the restore raises an error, unless the restored bag is exactly as complete and correct as in a failure-free run.",
 ["fault_sequences", "inputs", "configurations"],
 "every operation of the restore at which an error (EIO, ENOSPC, EACCES, EMFILE, full disk) can be returned, for every aggregation, member form and destination kind",
 "Tests inject no I/O failure at all.",
 [RE, EX, BG], [("restore, _restore_from, _update_manifests, restore_fetch", RE), ("replicate, walk", EX)],
 ["raise/return of restore_bag()", "the restored directory"])

prop("C06", "Amending or converting a bag reports I/O failures instead of losing records",
 "If any file-system operation fails while an aggregation is being amended or a plain bag converted to a single-bag aggregation, the operation raises an error, unless the resulting head bag has exactly the member list, file lookup, deletion list, version metadata and payload of a failure-free run.",
 ["fault_sequences", "inputs", "configurations"],
 "every operation of an amendment or conversion at which an error can be returned, for every amendee, amending bags and options",
 "Tests inject no I/O failure at all.",
 [AM, MB, EX], [("Amender.init_from_amendee, finalize", AM), ("save_member_bags, save_file_lookup, update_info", MB), ("walk", EX)],
 ["raise/return of amend_bag_with() and make_single_multibag()", "the new head bag's files"])

prop("C07", "No operation alters its input bags",
 "Splitting, restoring to a new destination, amending, opening and validating never change the content, names, presence, permissions or modification times of any file in the bags they read: the source of a split, the member and head bags of a restore, the amended head and the added member bags. This holds even when the operation fails or is killed at any point, when outputs share storage with the source through hard links, and when the outputs are afterwards modified with this package.",
 ["crash_points", "fault_sequences", "histories", "inputs"],
 "every operation, every crash point and injected failure in it, link-sharing or copying, and every follow-up package operation on the outputs",
 "Tests compare inputs before and after in at most a few cases and never under failure or with hard-linked outputs being edited.",
 [SP, RE, AM, EX, MB], [("replicate (hard links)", EX), ("apply_iter writes", SP), ("save_* rewriting tag files in place", MB), ("Amender uses the amendee read-only", AM)],
 ["content of every input bag before and after"])

prop("C08", "Restoring combines members exactly as the profile's combination rules say",
 "For any ordered aggregation, the restored bag contains for every path the version from the last listed member that has it, omits every file marked deleted (and everything under a directory so marked) while keeping merely similarly named paths, merges manifests over all members and algorithms minus deleted paths, merges fetch lists with later members winning and deleted paths dropped, and installs the aggregation info as bag-info with the multibag tag directory and head tags removed and size tags correct. The result is a valid bag with the last-modified times of files kept in directory-form members preserved, and is the same whether restored in place, into an existing empty destination or into a new one.",
 ["inputs", "histories", "configurations", "schedules"],
 "every sequence of overlapping member bags, deletion list, fetch lists, mixtures of checksum algorithms, tag-directory name and destination kind",
 "Tests cover one overlap, one deletion and one fetch list.",
 [RE, BG, EX, MB], [("restore, _restore_from, _update_manifests, restore_fetch", RE), ("deleted_paths, member_bags", MB)],
 ["the restored directory", "its fetch.txt, manifests, bag-info.txt, file times"])

prop("C09", "An amendment produces a correct new head bag",
 "Amending an aggregation or a plain bag makes the amendment bag a valid head whose member list is the previous one in order with its recorded details, then the added bags, then itself last; whose lookup gives for each file the newest bag holding it; whose metadata gives the new version and deprecates the previous versions; and whose deletion list keeps every earlier deletion except files that have been supplied again. Files selected or withheld from the lookup by inclusion and exclusion lists are treated as documented, the given identifiers and comments are recorded, the payload of the amendment is untouched, and the caller's open handle on the amended bag is not modified. Converting a plain bag, at once or step by step, likewise makes it a valid head of an aggregation of itself alone.",
 ["inputs", "histories", "configurations"],
 "every amendee (plain bag, head of any supported profile version, serialized or not), set of added bags with overlapping files, include/exclude lists, member details, and chain of amendments",
 "Tests amend two or three sample bags once.",
 [AM, MB], [("Amender", AM), ("add_member_bag, update_for_member, update_info", MB), ("MemberInfo.format/parse", MB)],
 ["member-bags.tsv, file-lookup.tsv, deleted.txt and bag-info.txt of the new head", "package reading API on the new head", "bag validation"])

prop("C10", "Every published version of an aggregation stays restorable as it grows",
 "After any history of splits, conversions and amendments (with files added, replaced, deleted and brought back, bags packed or unpacked in between, and amendments killed midway and redone), restoring from the head bag of any published version yields exactly the content that version had, and the newest head yields the newest content.",
 ["histories", "crash_points", "configurations"],
 "every history of package operations over a shared bag store and every version in it",
 "Tests contain no multi-step version history.",
 [AM, RE, SP, MB], [("Amender", AM), ("BagRestorer", RE), ("HeadBag bookkeeping", MB)],
 ["restored content of each version compared with a reference model of the history"])

prop("C11", "A split killed midway never leaves an incomplete aggregation that looks complete",
 "If the process dies at any point during a split, no bag on disk is recognised as a head bag unless its payload, tag files, checksums, member list and file lookup are all in place and every other bag it lists as written by that split is complete and valid; every bag the caller was already handed is complete and valid. Re-running the split afterwards into a fresh directory gives the same result as an uninterrupted run.",
 ["crash_points", "inputs", "configurations"],
 "every operation boundary and every torn write of every split",
 "Tests never interrupt anything.",
 [SP], [("apply_iter order of writes: payload, manifests, multibag tag files, bag-info last", SP)],
 ["directory tree after the crash", "is_headbag on each bag", "result of the re-run"])

prop("C12", "A restore killed midway is never mistaken for a finished one, and can be redone",
 "If the process dies at any point during a restore to another directory, what is left there is never a valid, non-head bag with an incomplete or wrong payload. Restoring again into a fresh destination gives exactly the right bag, and restoring again into the interrupted destination either fails, leaves a bag that does not validate, or gives the right payload.",
 ["crash_points", "inputs", "configurations"],
 "every operation boundary and torn write of every restore, followed by a retry to the same or a fresh destination",
 "Tests never interrupt anything.",
 [RE], [("order of member copies, manifest updates and bag-info installation", RE), ("skip-existing rule", RE)],
 ["destination tree after the crash and after the retry", "bag validation"])

prop("C13", "An amendment or conversion killed midway can simply be redone",
 "If the process dies between any two file-system operations while amending an aggregation or converting a bag, repeating the operation on the same bags succeeds and produces exactly the member list, file lookup, deletion list, head version and deprecation metadata, and payload that an uninterrupted run would have produced, in a valid bag. So does repeating it with corrected arguments (other options, other amending bags) after an attempt that completed or died: nothing of the earlier attempt remains in the lookup, member list or head metadata (deletions that the earlier attempt carried over from the amended aggregation count as set in the new head). Bags other than the new head are unaffected by the crash.",
 ["crash_points", "inputs", "configurations"],
 "every operation boundary of every amendment or conversion, followed by a retry",
 "Tests never interrupt anything.",
 [AM, MB], [("init_from_amendee resets tag files", AM), ("save order: tag files before bag-info", MB)],
 ["the head bag after the retry compared with an uninterrupted run"])

prop("C14", "A head bag's member list, file lookup and deletions behave like durable tables",
 "Any sequence of adding, replacing, removing and listing members, adding, removing and looking up files, marking and unmarking deletions, saving and re-opening behaves like three tables (members and lookup kept in insertion order) that hold exactly what was last saved. Removing a member also removes its lookup entries and their deletion marks, every string the profile allows in a name, path, identifier, comment or extra field reads back unchanged, and a crash while saving one table leaves the other tables as they were.",
 ["histories", "inputs", "crash_points"],
 "every operation sequence on a head bag, field values including spaces, non-ASCII and odd line-separator characters, tag-directory name, and crash point in a save",
 "Tests exercise each method a few times in isolation with ASCII values.",
 [MB, EX], [("HeadBagUpdateMixin", MB), ("MemberInfo.format / parse_line_03", MB), ("open_text_file", EX)],
 ["the reading API before and after save and re-open", "tag files on disk"],
 [("_memberbags, _filelu, _deleted", "in-memory copies of the three tag files; None means not loaded", MB)])

prop("C15", "A bag reads the same whatever form it is stored in",
 "For any bag, opening it as a directory (read-only, writable or by an osfs:// URL), zip, tar, tgz or tar.bz2 gives the same name, metadata, checksums, fetch entries, file and directory listing, existence tests, file sizes, text content, replicated files and validity verdict, independent of listing order or of the order of entries in the archive.",
 ["inputs", "configurations", "schedules"],
 "every bag tree, every storage form, every archive member order (with or without explicit directory entries), trailing slashes on paths, reads starting in any subdirectory",
 "Tests read one or two archived samples.",
 [BG, EX], [("open_bag, ReadOnlyBag, Path", BG), ("the two read mixins", EX)],
 ["every public read method on each form, compared pairwise and with the model tree"])

prop("C16", "Bag validation accepts sound bags and detects every kind of damage",
 "Validating a bag in any storage form accepts it when its payload matches its manifests and size tag, and rejects it when any payload or listed tag file has been altered, truncated, removed or swapped, when an unlisted payload file has been added, or when manifests or the bag declaration are missing or unreadable. A read error during validation is never turned into a verdict of valid.",
 ["inputs", "fault_sequences", "configurations"],
 "every bag, storage form, kind and place of at-rest damage (single bit flips included), and every read at which an error can be returned",
 "Tests damage one or two sample files by hand.",
 [BG, VB, VV], [("ReadOnlyBag.validate and its _validate_* parts, _load_manifests", BG), ("BagValidator", VB)],
 ["validate()/is_valid() verdicts and exceptions"])

prop("C17", "The multibag validators always reach the right verdict on a head or member bag",
 "For any bag that can be opened, however its multibag tag files or metadata have been damaged, torn or hand-edited (while still being readable as text), the head and member validators return results rather than failing with an unrelated error. They report errors and warnings exactly when the profile's requirements for head bags (version, tag directory, head version, deprecations, member list format, order, identifiers and uniqueness, lookup format, existence and uniqueness) or for plain member bags are violated, and the overall pass/fail verdict and raised error agree with the reported issues.",
 ["inputs", "fault_sequences", "configurations"],
 "every combination of edits, truncations and removals of tag files and metadata fields, bag names, profile versions 0.2 to 0.4, storage form and requested issue levels",
 "Tests check each rule on one or two hand-made bags.",
 [VH, VM, VB, VV], [("HeadBagValidator.validate_*", VH), ("MemberBagValidator.validate_*", VM), ("ValidationResults", VV)],
 ["labels and types of failed issues, is_valid(), ensure_valid()"])

prop("C18", "Stepwise splitting survives the caller moving finished pieces away",
 "When a plan is applied step by step, the caller may serialize, move, edit or delete each bag it has been handed before asking for the next: the remaining bags, the head's member list and the lookup come out exactly as if nothing had been touched. An error in one step is reported from that step, and bags already handed out are never touched again.",
 ["schedules", "histories", "configurations"],
 "every interleaving of caller actions (pack, move, edit, delete, pause with clock jumps) with the steps of the split, with names given in the plan or by a naming iterator of any length",
 "Tests run the iterator to the end without touching anything.",
 [SP], [("apply_iter generator state", SP), ("name_output_bags, naming_iter", SP)],
 ["each yielded bag at the moment it is yielded", "the head bag's tag files", "handed-out bags afterwards"])

prop("C19", "A remote fetcher is asked only for what is missing and less is never accepted",
 "When members are supplied by a fetch function, it is called once by listed name for each member that is not already in the cache, and never for one that is, and always with the cache directory. If it fails, returns nothing, or delivers something that is not a bag, an incomplete bag or one with damaged payload, the restore raises an error or the restored bag does not validate, unless the harm only concerned content that the aggregation replaces or deletes. Once the bad delivery is removed, a retry with the fetcher healthy into a fresh destination gives exactly the right bag, without fetching again what an earlier attempt left in the cache.",
 ["fault_sequences", "histories", "configurations"],
 "every split of members into cached and remote, fetch order, delivery form, and sequence of fetch faults (error, nothing, missing path, empty, partial or truncated bag, damaged content) and process deaths between attempts",
 "Tests call a trivial fetcher on one sample and check it is called.",
 [RE], [("get_member_bag, find_member_bag, _fetch_member_bag", RE)],
 ["calls received by the fetcher", "raise/return of restore_bag()", "validity of the restored bag"])

prop("C20", "Concurrent jobs on a shared bag store do not disturb one another",
 "Any number of split, restore, amend and validate jobs running as separate processes at the same time over a shared store, each writing to its own output, give exactly the results they would give one after another, and none of them changes a bag it only reads. One job failing or being killed does not affect the others.",
 ["schedules", "crash_points", "fault_sequences"],
 "every interleaving of the file-system operations of two to four jobs that share input bags, with crashes of individual jobs",
 "Tests are sequential.",
 [SP, RE, AM, BG, EX, MB], [("no shared scratch names or module state", SP), ("bag saving changes and restores the process's current directory only", EX)],
 ["each job's result compared with its result when run alone", "the shared inputs"])

prop("C21", "Damage is never laundered: recorded checksums travel with the data",
 "Split, restore and amend carry the recorded checksums of payload files instead of recomputing them, so if a payload file of a source or member bag was altered, truncated, or lost before the operation, the operation raises an error or the bag that ends up with that file does not validate. Undamaged files next to it are still carried correctly.",
 ["fault_sequences", "inputs", "histories"],
 "every file and kind of at-rest damage in every input of every operation and chain of operations",
 "Tests never damage an input before an operation.",
 [SP, RE, AM, MB], [("_record_hash", SP), ("_update_manifests", RE), ("saving without recomputing payload manifests", MB)],
 ["validity of outputs", "manifest entries compared with the inputs'"])

prop("C22", "The sizes a bag states are its real sizes",
 "Every Payload-Oxum in a bag the package writes (the pieces of a split, a restored bag, a bag whose size tags were brought up to date with update_oxum() and save()) is the exact number of bytes and files of that bag's payload, and every Bag-Size (new heads made by an amendment or conversion, restored bags, update_bag_size()) is the size of the bag's files up to rounding and the length of the tag itself, stated once; sizes stated by the sources or by an earlier state of the bag are never carried over. calc_oxum() agrees with the disk. This holds after edits of the bag on disk, when an I/O error was tolerated, and when the operation is redone after an error or a crash; otherwise an error is raised.",
 ["inputs", "histories", "fault_sequences", "crash_points"],
 "every bag, file size, edit history and point at which an error strikes or the process dies",
 "Tests look at a few size tags of one bag written once.",
 [SP, RE, AM, MB, EX], [("update_oxum / calc_oxum / update_bag_size", EX), ("HeadBag.update_info / _bag_size", MB), ("size tags in restore()", RE), ("bag-info.txt of a piece in apply_iter", SP)],
 ["Payload-Oxum and Bag-Size in bag-info.txt compared with the sizes of the files"])

prop("C23", "A restore can be carried out member by member",
 "Each BagRestorer.restore_member() call copies to the destination exactly the files and directories of that member that are not there yet (with overwrite, all of them, replacing what is there), leaves out the paths given as skip and what lies below them, and touches no other file. After each call the payload manifests at the destination hold, for every file, the checksums of the member it came from, and only those (a replaced file's former checksums are gone, in every algorithm). Restoring the members in reverse order, or in listed order with overwrite, hence gives the content that restore() gives, and restore() into a destination that holds the last members completes it. restore_fetch() writes the union of the given members' fetch lists, later ones taking precedence; restore() without the removal of multibag tags keeps them. An I/O error in a step is reported or harmless, and beginning anew after a failure or crash never ends in a valid bag with wrong content; the store is never modified.",
 ["inputs", "histories", "fault_sequences", "crash_points"],
 "every aggregation, order, repetition and overwriting of steps, paths left out, storage form, listing order and point of failure",
 "Tests restore one or two members of a sample aggregation in the usual order.",
 [RE, EX], [("restore_member / _restore_from", RE), ("_update_manifests", RE), ("restore_fetch", RE), ("restore(update_sizes, remove_multibag_tags)", RE)],
 ["the tree and manifests at the destination after every call"])

prop("C24", "A split plan gives a true account of itself",
 "required() gives each extra tag file, payload file and empty directory of the source exactly once, missing() exactly those not assigned to an output bag yet, and is_complete() is true exactly when nothing is missing; find_destination() gives the last output bag that a path is assigned to, or None; manifests() describes the output bags in order, the last as the head, and changing what it returned does not change the plan. complete_plan() assigns exactly what is missing and changes nothing else; name_output_bags() names the bags in order or, if asked, in reverse, and raises RuntimeError when the names run out. A plan made by a splitter is complete and its bags bear the names asked for (given one by one or as a base name). Applying the plan writes exactly the planned bags, under the planned names, with the planned content, and the head's lookup agrees with find_destination(). When reading the source fails, the question raises an error, never a wrong answer, and the plan stays as it was.",
 ["inputs", "histories", "fault_sequences", "configurations"],
 "every source, plan, sequence of operations on the plan, storage form, listing order and failing read",
 "Tests ask a plan for one sample bag a few questions.",
 [SP, EX], [("SplitPlan.required, missing, is_complete, find_destination, manifests", SP), ("complete_plan, name_output_bags, apply_iter", SP), ("nonstandard, walk", EX)],
 ["the answers of the plan", "the bags written from it"])

prop("C25", "Nothing outside the bag being written is touched, whatever the bags' files say",
 "Paths in tag files and archives that lead out of the bag (with .., absolute, or through other directories), in the deletion list, the member list, the lookup, the manifests, the fetch list, the multibag tag directory of bag-info.txt or of an argument, or the names of archive entries, never make the package create, change or remove anything outside of the bag (or output directory) the operation is meant to write: the operation skips them or raises an error. A multibag tag directory set to the bag's root, its payload or a place outside never costs payload: a restore raises an error or gives the right payload. This holds for restore, in-place restore, amendment, conversion, edits of a head bag's tables, split, reading and validation, also when they fail or die half way.",
 ["inputs", "crash_points", "configurations"],
 "every operation, path form, place where such a path can be given, storage form, and point at which the process dies",
 "Tests only use well-behaved paths.",
 [RE, AM, MB, EX, BG], [("restore: deleted_paths, multibag tag removal", RE), ("set_multibag_tag_dir / ensure_tagdir", MB), ("SingleMultibagMaker", AM), ("archive access", BG)],
 ["a snapshot of the whole neighbourhood before and after", "refused calls leaving the scratch directory"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as fd:
    for p in P:
        fd.write(json.dumps(p) + "\n")
print(len(P))
