"""Text for DESIGN.md: how each property is decided, and the fixes made."""
HOW = {
 "P01": "`h_rw`, `h_append`, `h_rw_long`: create, write (split at arbitrary points, with flushes, appended through a second writer), read back with different buffers, before and after `initialize()`. All data bytes are symbolic, the length is split by the solver into every feasible value. Oracle: the written bytes; block count = ceil(len/254).",
 "P02": "`h_history`, `h_writers`: histories of symbolic operations (create, write, rename, delete, re-read; two writers interleaved with renames and other files) are compared step by step with a model that maps names to contents; every sector that was allocated to something else must keep its bytes.",
 "P03": "the same histories, plus: after each step `validate()` is empty, an independent walk of the raw image assigns every allocated sector to exactly one owner, counts equal the bitmap, and `initialize()` (re-reading everything from the image) changes nothing. P21 extends this to the limits.",
 "P04": "`h_alloc_next`: every bit of the map (or of a window of tracks around the previous block) is a symbolic bit, the previous sector is symbolic; the chosen sector is compared with an independent formulation of DOS order (order of tracks, first free sector from the interleaved start).",
 "P05": "`h_bam_codec`: all bytes of the map sectors symbolic, decoded and written back. `h_bam_change`: symbolic map, one or two symbolic allocate/free operations, then one flush: in-memory entry, every byte on disk. `h_bam_lists`: lists and blocks-free figure.",
 "P06": "`h_addr`: symbolic track, sector and contents against the published geometry (independent running offset); `h_write_len`: wrong lengths, error table; `h_format_info`: the enumeration of locations, number of blocks and slots.",
 "P07": "`h_format`: every byte of the image symbolic before formatting; after it every byte equals the image of an empty disk built from the format description. `h_format_valid`: the result validates and a file can be stored.",
 "P08": "`h_validate`: symbolic allocation bits of selected sectors with plain and relative files; `h_validate_cross`: first sector and link of one file arbitrary among other files', directory, system and invalid sectors, names possibly equal; `h_validate_geos`: GEOS and border files. The reported multiset must equal an independent computation of the inconsistencies.",
 "P09": "`h_entry_codec`: 30 symbolic bytes in any slot are decoded and written back; `h_entry_update`: symbolic new values; `h_slot_reuse`: slots of deleted files of any kind.",
 "P10": "`h_dir_list`: symbolic type bytes of several slots; `h_find`: symbolic stored and queried names; `h_rename`, `h_create_name`: symbolic names next to symbolic names of other files.",
 "P11": "`h_rel_delete`, `h_geos_delete`, `h_linear_delete`: a file laid out by hand next to a bystander; after `delete()` the complete raw image is compared with the expected one (bits and counts of exactly its sectors, type byte of exactly its entry).",
 "P12": "`h_chain`, `h_link`, `h_long_loop`, `h_dir_chain`: the links of up to four sectors are symbolic; reading, sector list, append and delete are compared with an independent walk that classifies the chain.",
 "P13": "`h_any_entry`, `h_any_side`, `h_any_index`, `h_any_dir`, `h_any_header`, `h_any_bam`, `h_any_fill`, `h_any_chain`, `h_any_args`: arbitrary (symbolic) directory entries, side sectors, indexes, links, headers, maps; a battery of operations must return (panics, overflows, out-of-range accesses and exhausted instruction budgets are violations).",
 "P14": "`h_rel`: symbolic data and record length, every record against its slice; `h_rel_bad`: symbolic side-sector list, length byte, last link; several side sectors up to and beyond the limit.",
 "P15": "`h_geos_records`, `h_vlir_index`, `h_info`, `h_border`: symbolic record data, index entries, info block bytes and border entries against the published GEOS layout.",
 "P16": "`h_cvt`, `h_cvt_split`, `h_cvt_big`, `h_cvt_noinfo`: the stream is compared with one put together by hand, for every position of a split of the reads.",
 "P17": "`h_header`: 256 symbolic header bytes; `h_header_write`: symbolic new fields.",
 "P18": "`h_pet_show`, `h_pet_from`: every code and every Unicode scalar value (symbolic 21-bit character) against the chart; `h_pet_bytes`: symbolic texts and paddings.",
 "P19": "`h_sprite`, `h_sprite_bytes`: all 63 bytes symbolic; each block character against its four pixels.",
 "P20": "`h_read_only`: symbolic choice of 19 operations (and pairs of them) on an image opened read-only in three ways; image file, sectors and in-memory state are compared with those before.",
 "P21": "`h_full`, `h_dir_full`, `h_sparse`: disks with few free blocks (symbolic write lengths and contents), directories at their limit, sparse symbolic maps.",
 "P22": "`h_open`, `h_open_bad`, `h_create_image`, `h_persist`: files of the modelled file system with symbolic contents; open by type, extension, size; create with and without an existing file; work, close, reopen.",
 "P23": "`h_errors`: every error value through `std::io::Error` and back.",
 "P24": "`h_show_*`, `h_dump_*`: Display and dump output (captured in memory) with symbolic field values against an independent rendering.",
}
FIXES = [
 ("db1043a", "P03", "creating a file did not store the allocation of its first block in the image, and a failing creation left traces"),
 ("4a205d1", "P03", "the allocation of a new directory sector was not stored in the image"),
 ("0a8fc82", "P09", "reusing the slot of a deleted relative or GEOS file kept the old file's scheme"),
 ("cc35225", "P13", "a directory sector whose used length ends inside a slot made the search for a free slot panic"),
 ("839d626", "P09", "the record length of a relative file's entry was not written"),
 ("694f2d5", "P15", "the description of an info block was written over another field"),
 ("4787aea", "P15", "the link bytes of a VLIR index block were taken for record 0"),
 ("62490ee", "P16", "the Convert reader delivered bytes twice when the caller's buffer was filled exactly"),
 ("fcbd32a", "P13", "malformed relative files made opening panic"),
 ("462e120", "P11", "freed side sectors and info blocks were not stored as free"),
 ("b7a6d2e", "P13", "locations outside the allocation map made operations panic"),
 ("0f3d221", "P12", "a deletion that fails half-way left part of the file freed"),
 ("d0ee087", "P12", "opening a looping file for writing never ended"),
 ("7585c1b", "P12", "data before a broken link was discarded by reads spanning it"),
 ("2a42d5f", "P21", "bytes written before the disk became full were not reported, so callers lost track of them"),
 ("a90a7be", "P13", "the block count of an entry could overflow"),
 ("1fc3aad", "P07", "formatting with a name that does not fit erased the disk before refusing"),
 ("313e94a", "P22", "creating an image neither created a missing file nor replaced an existing one"),
 ("ef6bf61", "P15", "any record index of a GEOS sequential file was accepted"),
 ("316d7f8", "P04", "a file's first block could be put on the reserved track of a 1571 disk whose map marks it free (even over the second map sector)"),
 ("73c93cb", "P25", "cdisk exited with status 0 when a command had failed"),
 ("15483e8", "P25", "cdisk append always failed: the image was opened read-only"),
 ("e8d0d0b", "P25", "cdisk geosread of a file that is not a GEOS file panicked"),
 ("a6cd1e3", "P25", "cdisk bam edited locations the disk does not have (or left out tracks above 40) and accepted out-of-range arguments"),
]

TAIL = """
Seeds that were first missed and led to stronger checks: s10 (read-only 1571), s16 (records of 256 blocks), s21 (reserved track
marked free), s22 (two changes before one write of the map), s24 (equal names), s25 (six side sectors), s26 (sector 0).

## Mutation sweep

Besides the hand-written bugs, random one-token mutations of the sources that still pass the tests were run through the
checks; survivors were analysed by hand. Survivors so far: the location iterator's last track (now covered by P06), and a
writability check repeated by its callee (equivalent), and a loop bound past the last track (equivalent).

## Refactorings

Rewrites of the allocation map, chains, allocation, validation and dumps (loops to iterators, bit counting by `count_ones`,
other set types, extracted helpers) were run through all checks. The first run showed one check without an answer within its time: branches
merged where they had been forked before left many small queries to an ever slower solver context; since then branch
feasibility is decided by cases where one byte suffices, and the context is renewed when it slows down.
A second rewrite (directory, text, sprites, GEOS, files, the program's `main` returning `ExitCode`) gave no alarm either.
A third one that branches where the code had none (bits counted by `map &= map - 1`, empty tracks skipped in a sum, bytes written only
where they differ) uncovered a defect of the engine: two sides of a branch were merged although one had passed the head of an
enclosing loop and redefined registers still in use. The counterexample it led to was rejected by the native replay. Registers
whose definition dominates the join are now merged too. The same rewrite makes runs with many arbitrary bits explode, so P05 repeats
them with few arbitrary bits at a time; the large runs are marked optional and, should they not get through in a minute, are listed in the
evidence as `extra_runs_not_completed` (on the present tree all complete).

## What the properties leave open on purpose

- Names ending in the padding byte 0xA0 cannot be told from shorter names; P10 excludes them.
- Which code stands for U+FFFD is free (P18). Padding of the title line is free (P24).
- Creating a relative or GEOS file is not offered by the library (asserted in the source); not claimed.
- Reading on after an error in the middle of a Convert stream is not claimed.
- Hash values and iteration order of hash sets are not part of any property; reported findings are compared as multisets.

## False alarms met while building

Where a first formulation was too strong the property was corrected: validation order (multiset), the link bytes of the header as a
chain, allocation maps whose counts contradict the bitmap (P04 requires count = 0 exactly for empty bitmaps).
"""

HOW["P25"] = "`h_cli_*`: the program's source is compiled into the harness and its `main` run with arguments, standard streams, exit status and files modelled; results are compared with the library's (which the other properties cover) and with the data."
