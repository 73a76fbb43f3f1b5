"""The properties, and which harness runs decide them (see DESIGN.md).

gen.py writes properties.jsonl and MANIFEST.json from this file."""

COMMON_ASSUMPTIONS = [
    "the compiled code of cbm, std and the harness is taken as LLVM IR produced by the stable toolchain (opt-level 1, overflow checks and debug assertions on); code generation below LLVM IR is trusted",
    "allocation never fails; HashMap/HashSet iteration order and hash values are not part of any property",
    "x86-64 little-endian, single thread",
]


def J(h, *p, **kw):
    d = {"h": h, "p": list(p)}
    d.update(kw)
    return d


D64, D71, D81, D64_40 = 0, 1, 2, 3
ALL = (D64, D71, D81, D64_40)
DOS = (D64, D71, D81)

PROPS = {}
NA = []


def prop(pid, title, statement, over, qtext, why, files, mech, jobs, bounds, outside, **kw):
    PROPS[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      jobs=jobs, bounds=bounds, outside=outside, **kw)


def na(pid, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, reason=reason))


def V(h, *p, **kw):
    """A harness run that calls code hashing concrete locations only (validate, chains)."""
    return J(h, *p, hash_const=False, **kw)


# ---------------------------------------------------------------- P01
def p01(tier):
    if tier == "quick":
        return ([J("h_rw", k, 0, 520, c, b) for k in DOS for c, b in ((0, 0), (3, 255), (1, 7))]
                + [J("h_rw", k, 0, 40, 5, 3) for k in DOS]
                + [J("h_rw", k, 0, 520, 3, 0, 1) for k in DOS] + [J("h_rw", D64, 0, 40, 5, 0, 1)]
                + [J("h_append", k, 0, 520, m) for k in DOS for m in (0, 1, 255)]
                + [J("h_rw_long", D64, 664, 3), J("h_rw_long", D71, 1328, 0, 300), J("h_rw_long", D81, 3160, 1, 9000)]
                + [J("h_pieces", D64, 3, shards=5, shard_depth=2, cost=8)] + [J("h_pieces", k, 2, cost=5) for k in (D71, D81)]
                + [J("h_readsize", k, n, m) for k, n, m in ((D64, 600, 620), (D71, 254, 300), (D81, 508, 520))]
                + [V("h_sparse", D64, 0, 600, reach=[1, 3], cost=9), V("h_full", D64, 2, 3, reach=[1, 2]), V("h_writers", D64, 2, shards=4, shard_depth=2, cost=9)])
    return ([J("h_rw", k, 0, 1300, c, b, shards=4, shard_depth=1) for k in ALL for c, b in ((0, 0), (2, 254), (3, 255), (4, 256), (1, 7), (0, 1))]
            + [J("h_rw", k, 0, 300, 5, 3, f, shards=8, shard_depth=1) for k in DOS for f in (0, 1)]
            + [J("h_append", k, 0, 1100, m) for k in ALL for m in (0, 1, 2, 253, 254, 255, 600)]
            + [J("h_rw_long", D64, 664, 3), J("h_rw_long", D71, 1328, 0)] + [J("h_rw_long", k, n, 1, t) for k, n in ((D64, 664), (D71, 1328), (D81, 3160)) for t in (1, 254, 9000)]
            + [J("h_pieces", D64, 4, shards=35, shard_depth=2, cost=30)] + [J("h_pieces", k, 3, shards=7, shard_depth=2, cost=20) for k in ALL]
            + [J("h_readsize", k, n, m, cost=9) for k in ALL for n, m in ((0, 10), (1, 10), (253, 300), (254, 300), (255, 520), (508, 520), (1300, 1310))]
            + [V("h_sparse", k, g, n, reach=[1, 3], cost=9) for k in DOS for g in (0, 1) for n in (255, 600)]
            + [V("h_full", k, n, 3, reach=[1, 2]) for k in (D64, D71) for n in (1, 2, 3)] + [V("h_writers", D64, 3, shards=8, shard_depth=2, cost=9)])


prop("P01", "What is written to a file is what is read back",
     "After creating a file and writing any bytes to it, in any split into write calls with or without flushes in between and possibly through several writers over time, "
     "reading it returns exactly those bytes in order, whatever the reader's buffer size and also after the image is re-read. "
     "The directory entry then shows the right type, a closed file and the number of blocks the data needs.",
     ["inputs", "histories"], "every byte content, every length and split within the bounds, every read buffer size listed, all three disk formats",
     "The integration tests write a few random files; a defect at one length (block boundary), one split or one byte value passes them.",
     ["src/disk/chain.rs", "src/disk/file.rs", "src/disk/mod.rs"],
     [("chain writer fills tail blocks and links new ones", "src/disk/chain.rs ChainWriter"), ("chain reader strips links and honours the tail length", "src/disk/chain.rs ChainReader")],
     p01,
     {"quick": "every length 0..520 (all contents) x write splits {none, after 254, after 1} x read buffers {whole, 255, 7}; every split of lengths 0..40 and flushes between the pieces; append of 0/1/255 bytes to every length 0..520; files filling a whole D64/D71/D81 with 64 arbitrary bytes, the latter two with an append; "
      "three (D71, D81: two) pieces of 0, 1, 126, 253, 254, 255 or 509 bytes with nothing, a flush, another writer of the same or a new handle, or a re-read between; every read buffer size 0..620 throughout or for the first read only; "
      "any subset of eight free sectors; the last two blocks of a disk; 2 steps with two open writers; D64, D71, D81",
      "thorough": "four pieces on D64 and three on every format; every length 0..1300, six split/buffer pairs, every split of lengths 0..300, append of seven lengths to every length 0..1100, whole-disk files on D64, D71 and D81; also 40-track D64"},
     "longer files with more than 64 arbitrary bytes; more than four writers on one file")


# ---------------------------------------------------------------- P02 / P03
def hist(tier):
    j = [V("h_history", D64, 2, 0, n, 1, shards=4, shard_depth=2, cost=9) for n in (0, 1)]
    j += [V("h_history", k, 1, 7, 0, 1, cost=5) for k in DOS]
    j += [V("h_history", D81, 1, 0, 1, 1, cost=5)]
    j += [V("h_writers", D64, 3, shards=8, shard_depth=2, cost=9), V("h_writers", D81, 1)]
    j += [V("h_history", D64, 1, 16, 0, 1, cost=5), V("h_history", D64, 1, 15, 0, 1, 1, cost=5)] + [V("h_history", k, 1, 0, 0, 1, 1, cost=5) for k in (D71, D81)]
    j += [V("h_dir_full", D64, 143), V("h_dir_full", D64, 144), V("h_full", D64, 1, 3, reach=[1, 2])]
    j += [J("h_rename_kind", D64, p) for p in (0, 1, 2)] + [V("h_geos_delete", D64, s, 1) for s in (0, 3)] + [V("h_rel_delete", D64, 130), V("h_linear_delete", D81, 3)]
    if tier == "quick":
        return j
    j += [V("h_writers", k, n, shards=16, shard_depth=2) for k, n in ((D64, 4), (D71, 3), (D81, 3))]
    j += [V("h_history", D71, 2, 0, 0, 1, shards=7, shard_depth=2, cost=20)]
    if tier == "thorough":
        j += [V("h_history", D64, 3, 0, n, 1, shards=64, shard_depth=2, cost=50) for n in (0, 1)]
        j += [V("h_history", k, 2, p, n, 1, shards=16, shard_depth=2) for k in ALL for p in (6, 7) for n in (0, 1)]
        j += [V("h_history", k, 2, p, 0, 1, 1, shards=16, shard_depth=2) for k in DOS for p in (0, 7, 15)]
        j += [V("h_history", k, 1, p, 0, 1, g, cost=5) for k in ALL for p in (14, 15, 16, 23, 24) for g in (0, 1)]
    return j


def p03(tier):
    j = hist(tier) + [V("h_pieces", k, 2, 1, cost=9) for k in DOS]
    seen = {(x["h"], tuple(x["p"])) for x in j}
    j += [x for x in p21(tier) + p11(tier) if (x["h"], tuple(x["p"])) not in seen]
    if tier == "quick":
        return j + [V("h_history", D71, 2, 0, 0, 1, shards=7, shard_depth=2, cost=20)]
    return j + [V("h_pieces", D64, 3, 1, shards=16, shard_depth=2, cost=30)]


def p02(tier):
    q = [V("h_sparse", k, g, 300, reach=[1, 3]) for k in DOS for g in (0, 1)] + hist(tier)
    if tier == "thorough":
        q += [V("h_sparse", k, g, n, reach=[1, 3]) for k in ALL for g in (0, 1) for n in (0, 254, 255, 1000)]
    return q


prop("P02", "Operations on one file never disturb another",
     "Creating, writing, renaming or deleting a file never changes the contents, name, type or size of any other file, and never writes to a "
     "sector that was allocated to something else. New data goes only to sectors that were free. Files written at the same time through open writers, "
     "with renames and other files coming and going in between, each end up with their own contents and current name.",
     ["inputs", "histories"], "every operation history within the bounds and every subset of free sectors of a set of candidates, for every content of the sectors involved",
     "Tests look only at the file they just wrote; damage to another file or to an allocated sector that no file owns goes unnoticed, and the interesting free-sector layouts are never built.",
     ["src/disk/mod.rs", "src/disk/chain.rs", "src/disk/bam.rs", "src/disk/format.rs", "src/disk/directory.rs"],
     [("allocation from the free map", "src/disk/format.rs next_free_block"), ("slot-wise directory writes", "src/disk/block.rs positioned_write")],
     p02,
     {"quick": "histories of 2 arbitrary operations (22 choices each: create, two write sizes, delete, rename, re-read) on D64 and of 1 on D81 and with a nearly full directory sector, two prior files with arbitrary contents; 3 arbitrary steps (10 choices) with two open writers; arbitrary subsets of 8 free sectors with arbitrary old contents, CBM and GEOS allocation; one operation after 15 or 16 earlier files and on GEOS disks; the last block, the last directory slot; deleting relative and GEOS files",
      "thorough": "3 operations on D64, 2 on every format with nearly full directory sectors, 3-4 steps with open writers, more write lengths on sparse disks"},
     "longer histories; more than three file names per history; names outside the two name sets")

prop("P03", "The disk stays consistent through any history of operations",
     "After any sequence of creating, writing, renaming, deleting and re-reading, the built-in validation reports nothing, every block is either free or "
     "used by exactly one file, the free counts match the allocation bitmaps, and all of this is already stored in the image, not only in memory.",
     ["histories", "inputs"], "every operation history within the bounds, all formats",
     "Tests run fixed scripts and check the in-memory state; a missing write-back or a leaked block in one order of operations is invisible to them.",
     ["src/disk/mod.rs", "src/disk/chain.rs", "src/disk/bam.rs", "src/disk/directory.rs", "src/disk/validation.rs"],
     [("allocation map flushed after each change", "src/disk/bam.rs Bam::flush"), ("delete frees the chain", "src/disk/chain.rs remove_chain")],
     p03,
     {"quick": "as for histories in P02, plus 2 operations on D71; 22 choices per step; two pieces of seven sizes with flushes, new writers or re-reads between; every run of P11 (deletion) and P21 (full disks and directories)",
      "thorough": "3 operations on D64, 2 on every format with 6 or 7 prior directory slots, CBM and GEOS; 1 with 14 to 24 prior files"},
     "longer histories; crashes in the middle of an operation (the library makes no atomicity claim)")


# ---------------------------------------------------------------- P04
def p04(tier):
    j = [J("h_alloc_next", k, g, 0, 0, 0, cost=5) for k in (D64, D71) for g in (0, 1)]
    j += [J("h_alloc_next", k, g, t, 255, 2) for k, n in ((D64, 35), (D71, 70)) for g in (0, 1) for t in range(1, n + 1) if not (k == D71 and t == 53)]
    j += [J("h_alloc_next", D81, 0, t, 255, 2, cost=5) for t in (1, 2, 20, 38, 39, 40, 41, 42, 60, 79, 80)]
    j += [J("h_alloc_next", D81, 1, t, 255, 2, cost=5) for t in (1, 39, 40, 41, 80)]
    j += [J("h_alloc_next", D64, 0, 20, 3, 0), J("h_alloc_next", D64, 0, 5, 20, 0), J("h_alloc_next", D71, 0, 40, 3, 0, cost=9)]
    if tier == "thorough":
        j = [J("h_alloc_next", k, g, t, 255, 2) for k, n in ((D64, 35), (D71, 70), (D81, 80)) for g in (0, 1) for t in range(1, n + 1)
             if not (k == D71 and t == 53)]
        j += [J("h_alloc_next", k, g, t, s, 0, cost=9) for k in (D64, D71) for g in (0, 1) for t, s in ((0, 0), (3, 7), (20, 3), (35, 16), (30, 0))]
        j += [J("h_alloc_next", D81, g, t, s, 0, cost=90, tl=3000, qto=600_000) for g in (0, 1) for t, s in ((0, 0), (41, 3), (2, 39))]
    return j


prop("P04", "Allocation picks the right free sector, for every allocation map",
     "Asked for the next block, the disk returns a sector that is marked free, lies on a usable track and is the one CBM DOS order (nearest track to the directory "
     "first, interleave within a track, or the GEOS order on GEOS disks) dictates; directory blocks stay on the directory track. "
     "It reports a full disk exactly when no eligible sector is free.",
     ["inputs", "configurations"], "every allocation map (all bits of all tracks arbitrary at once) and every previous block within the bounds",
     "The unit tests allocate from an empty disk in one order; there are 2^683 maps on the smallest format.",
     ["src/disk/format.rs", "src/disk/bam.rs"],
     [("track order and interleave", "src/disk/format.rs next_free_block")],
     p04,
     {"quick": "first block: all maps of all tracks on D64 and D71, CBM and GEOS; following block: every sector of every track of D64 and D71 (CBM and GEOS order) and of 11/5 representative tracks of D81 with arbitrary maps of the two nearest candidate tracks on each side, plus full-map runs for three previous blocks",
      "thorough": "every previous track of every format and both modes with windowed maps, and full-map runs including D81"},
     "previous blocks with full maps other than the listed ones; maps whose free counts contradict the bitmaps")


def p05(tier):
    # everything arbitrary at once, and, should the code branch on every track, a few tracks at a time
    j = [J("h_bam_codec", k, 1, 80, opt=True, tl=90) for k in ALL]
    n = {D64: 35, D71: 70, D81: 80, D64_40: 35}
    j += [J("h_bam_codec", k, a, a + 6) for k in ALL for a in range(1, n[k] + 1, 7)]
    for k in ALL:
        # as many arbitrary bits as possible, and eight at a time, should the code branch on every bit
        j += [J("h_bam_change", k, a, sh, o, 1, min(6, n[k] - a), cost=5, opt=True, tl=60) for a in range(1, n[k] + 1, 7) for sh, o in ((0, 0), (16, 1))]
        j += [J("h_bam_change", k, a, sh, int(sh == 8), 1, min(11, n[k] - a), 8, cost=5) for a in range(1, n[k] + 1, 12) for sh in ((0, 8, 16, 24, 32) if k == D81 else (0, 8, 16))]
        j += [J("h_bam_change", k, t, sh, 0, 2, opt=True, tl=60) for t in (1, n[k]) for sh in ((0,) if k == D64 else (0, 16))]
        j += [J("h_bam_change", k, t, sh, 0, 2, 0, 4) for t in (1, n[k]) for sh in (0, 16)]
    if tier == "thorough":
        j += [J("h_bam_lists", k, a, min(4, n[k] - a), cost=9) for k in ALL for a in range(1, n[k] + 1, 5)]
    else:
        j += [J("h_bam_lists", D64, a, 4, cost=5) for a in range(1, 36, 5)]
        j += [J("h_bam_lists", k, a, 1, cost=5) for k, l in ((D71, (1, 17, 19, 24, 30, 35, 52, 54, 65, 69)), (D81, (1, 20, 39, 41, 60, 79)), (D64_40, (17, 34))) for a in l]
        j += [J("h_bam_lists", D71, 18), J("h_bam_lists", D71, 53)]
    return j


prop("P05", "The allocation map is read and written exactly as stored on disk",
     "Every sector's free bit and every track's free count are read from the place the format defines and written back there unchanged; marking a sector "
     "allocated or free changes just that bit and that track's count, and writing the map leaves every other byte of the image alone. "
     "The free and allocated lists and the blocks-free figure agree with it.",
     ["inputs"], "every byte content of all map sectors, every sector allocated or freed on the listed tracks",
     "One unit test decodes four bytes.",
     ["src/disk/bam.rs", "src/disk/d64.rs", "src/disk/d71.rs", "src/disk/d81.rs"],
     [("map sections", "src/disk/d64.rs, d71.rs, d81.rs BAM formats"), ("encode/decode", "src/disk/bam.rs BamEntry, BamWriter")],
     p05,
     {"quick": "all contents of the map sectors for decoding and re-encoding on D64, D71, D81 and 40-track D64; allocate/free of every sector of every track with 24 arbitrary bits of its map (8 at a time if the code branches on each); lists for every track of D64 and 38 of the others",
      "thorough": "lists for every track"},
     "in the change runs only one track's map (quick: from bit 16 on together with all other bytes) is arbitrary at a time")


def p21(tier):
    j = [V("h_full", k, n, 3, reach=[1] + ([2] if n else [])) for k, n in ((D64, 1), (D64, 2), (D64, 3), (D71, 1))]
    j += [V("h_full", D64, 0, 3), V("h_full", D71, 0, 3), V("h_full", D81, 0, 3)]
    j += [V("h_full", k, n, 3, 1, reach=[1, 2]) for k, n in ((D64, 1), (D64, 2), (D71, 1), (D81, 1))]
    j += [V("h_dir_full", k, n, cost=5 if k == D81 else 1) for k, n in ((D64, 143), (D64, 144), (D71, 144), (D81, 295), (D81, 296))]
    j += [V("h_sparse", k, g, 1000, reach=[1, 3]) for k in (D64,) for g in (0, 1)]
    if tier == "thorough":
        j += [V("h_full", D81, n, 4, reach=[1, 2], cost=20) for n in (1, 2, 3)] + [V("h_full", D71, n, 4, reach=[1, 2]) for n in (1, 2, 3)]
        j += [V("h_full", D64_40, 1, 3, reach=[1, 2]), V("h_full", D64, 7, 9, reach=[1, 2])]
        j += [V("h_sparse", k, g, 1000, reach=[1, 3]) for k in ALL for g in (0, 1)]
    return j


prop("P21", "A full disk or directory is refused cleanly",
     "When no free block or no directory slot is left, creating or extending a file fails with the disk-full error; a refused create changes nothing, and an interrupted write "
     "leaves a readable file holding exactly the data that fitted. Every block and every directory slot the format offers can be used before that happens, and deleting makes the room usable again.",
     ["inputs", "histories"], "every data content and length around the remaining room; disks with 0-3 free blocks and with the last directory slots in use",
     "One test fills a disk; none checks the state left behind, the directory limit or the recovery.",
     ["src/disk/chain.rs", "src/disk/mod.rs", "src/disk/directory.rs", "src/disk/format.rs"],
     [("block search before any change", "src/disk/mod.rs create_file"), ("link only after allocation", "src/disk/chain.rs allocate_next_block")],
     p21,
     {"quick": "0-3 blocks left on D64 (0-1 on D71 and D81), fresh or freed by deleting a file, writes of 0..3 blocks plus 0..2 bytes with arbitrary contents; directory with all but one or all slots used on each format; sparse disks with any subset of 8 free sectors and a write of 1000 bytes",
      "thorough": "also D81 and D71 with 1-3 blocks left, up to 9 blocks"},
     "fragmented free space other than the eight-sector patterns")


# ---------------------------------------------------------------- P09 / P10 / P12
def p09(tier):
    q = tier == "quick"
    j = [J("h_entry_codec", k, s, x, reach=[1, 2, 3, 4, 5]) for k in DOS for s, x in (((0, 0), (7, 1), (3, 0)) if q else [(s, x) for s in range(8) for x in (0, 1)])]
    j += [J("h_entry_update", k, s, n, x) for k in DOS for s, n, x in (((0, 16, 0), (7, 1, 1), (4, 0, 0)) if q else [(s, n, x) for s in (0, 1, 6, 7) for n in (0, 1, 15, 16) for x in (0, 1)])]
    j += [J("h_slot_reuse", k) for k in DOS]
    j += [J("h_dir_list", D64, 3, 256, 6, reach=[1, 2, 3])]
    return j


prop("P09", "A directory entry is stored and read back exactly",
     "Every field of a directory entry is read from its defined place in the 32-byte slot, and writing the entry puts every field back there: an unchanged entry leaves the image unchanged, "
     "a changed one alters only its own fields and never a neighbouring slot or the link of the directory sector. "
     "Reusing the slot of a deleted file leaves nothing of the old file behind.",
     ["inputs"], "every content of the entry's 30 bytes (all types, flags, relative and GEOS data), every name, in first and further directory sectors",
     "The unit tests decode hand-made entries; none writes relative or GEOS entries back or looks at the neighbouring slots.",
     ["src/disk/directory.rs", "src/disk/block.rs", "src/disk/geos.rs", "src/petscii.rs"],
     [("entry decoding and encoding", "src/disk/directory.rs DirectoryEntry"), ("slot-wise writes", "src/disk/block.rs positioned_write")],
     p09,
     {"quick": "all 2^240 entry contents in three slots of first and second directory sectors of D64, D71, D81; all names of 0, 1 and 16 bytes with arbitrary neighbours; arbitrary stale slot contents",
      "thorough": "every slot, four name lengths"},
     "names longer than 16 bytes written directly (creation and renaming refuse them: P10)")


def p10(tier):
    q = tier == "quick"
    j = [J("h_dir_list", k, n, t, a, reach=[1, 2, 3]) for k, n, t, a in ((D64, 3, 256, 0), (D64, 4, 256, 6), (D71, 3, 256, 12), (D81, 3, 256, 6))]
    j += [J("h_find", k, m, a, n, reach=[1, 2]) for k, m, a, n in ((D64, 3, 0, 2), (D64, 3, 13, 16), (D81, 3, 0, 3), (D71, 2, 5, 6))]
    j += [J("h_find", D64, 2, 0, 0, reach=[1, 2]), J("h_find", D64, 3, 0, 17, reach=[2])]
    for k in DOS if not q else (D64, D81):
        j += [J("h_rename", k, 3, 3, reach=[1, 2, 4]), J("h_rename", k, 3, 17, reach=[2, 3]), J("h_rename", k, 16, 16, reach=[1, 2, 4]), J("h_rename", k, 3, 16, reach=[1, 2, 4])]
        j += [J("h_create_name", k, n, reach=[1, 2]) for n in (3, 16)] + [J("h_create_name", k, 17), J("h_create_name", k, 0), J("h_create_name", k, 15)]
    j += [V("h_writers", D64, 2, shards=8, shard_depth=2, cost=9), V("h_dir_full", D64, 143), V("h_dir_full", D64, 144), V("h_history", D64, 1, 16, 0, 1, cost=5)]
    j += [J("h_rename_kind", k, p) for k in DOS for p in (0, 1, 2)] + [J("h_taken", k, reach=[1, 2]) for k in DOS]
    if not q:
        j += [J("h_dir_list", k, 7, 256, a, reach=[1, 2, 3]) for k in DOS for a in (0, 5, 9)]
        j += [J("h_dir_list", k, 4, t, 10, reach=[1, 2]) for k in DOS for t in (32, 64, 96, 200, 255)]
        j += [J("h_find", k, 6, a, n, reach=[1, 2]) for k in DOS for a, n in ((0, 4), (10, 16), (4, 7))]
        j += [J("h_rename", k, n, m, reach=[1]) for k in DOS for n, m in ((3, 1), (3, 0), (3, 15), (16, 3))]
    return j


prop("P10", "Names identify files: listing, lookup, creation, renaming",
     "The listing shows exactly the entries in use, in directory order; looking up a name finds the file stored under exactly that name and nothing else. "
     "Creating or renaming to a name that is taken or longer than 16 characters is refused without touching the disk, otherwise the file is found under the new name, "
     "no longer under the old one, and nothing but its name changes.",
     ["inputs", "histories"], "every name and query within the length bounds and every combination of used and free slots",
     "Tests use a handful of ASCII names in an otherwise empty directory.",
     ["src/disk/mod.rs", "src/disk/directory.rs", "src/petscii.rs"],
     [("lookup and duplicate check", "src/disk/mod.rs find_directory_entry, check_filename_availability"), ("entry iteration", "src/disk/directory.rs DirectoryIterator")],
     p10,
     {"quick": "type bytes of 3-4 slots across a directory sector boundary arbitrary; three stored names and the query with 2-3 arbitrary bytes at the start or the end, query lengths 0, 2, 3, 6, 16, 17; rename and create with arbitrary 3-byte names and names of 15-17 bytes with arbitrary ends; renaming entries of any type and content in three places; stored and new names of 0, 1, 2, 15 and 16 bytes in every combination; 2 steps with two open writers; one operation after 16 files; the last two directory slots",
      "thorough": "7 arbitrary type bytes, partially used directory sectors, 6 arbitrary bytes per name, more name lengths, all formats"},
     "names ending in the padding byte 0xA0, which the stored form cannot represent")


def p12(tier):
    q = tier == "quick"
    j = [V("h_chain", D64, 2, 0, reach=[1, 2]), V("h_chain", D64, 2, 1, reach=[2]), V("h_chain", D71, 2, 0, reach=[1, 2]), V("h_chain", D81, 2, 0, reach=[1, 2]),
         V("h_chain", D64, 3, 0, reach=[1, 2], cost=9, shards=4, shard_depth=2), V("h_chain", D81, 3, 1, reach=[2], cost=9, shards=4, shard_depth=2)]
    j += [J("h_link", D64, 0, 0, 0, 0, reach=[1, 2]), J("h_link", D64, 0, 0, 36, 255, reach=[2]), J("h_link", D71, 0, 0, 71, 255, reach=[2]),
          J("h_link", D81, 0, 0, 81, 255, reach=[2]), J("h_link", D64_40, 0, 0, 36, 40, reach=[1, 2]), J("h_link", D71, 0, 0, 30, 38, reach=[1, 2]), J("h_link", D81, 0, 0, 78, 80, reach=[1, 2])]
    j += [J("h_link", D64, 0, 0, a, b, reach=[1, 2]) for a, b in ((1, 12), (13, 24), (25, 35))]
    j += [J("h_rw_long", D64, 664, 3), J("h_rw_long", D71, 1328, 0, 300), J("h_rw_long", D81, 3160, 1, 2), V("h_long_loop", D64, 40)] + [V("h_dir_chain", k, 2, reach=[1, 2]) for k in DOS] + [V("h_dir_chain", D64, 3, reach=[1, 2])]
    if not q:
        j += [V("h_chain", k, 3, a, reach=[2], shards=8, shard_depth=2) for k in ALL for a in (0, 1)] + [V("h_chain", D64, 4, 0, reach=[1, 2], shards=32, shard_depth=2, cost=50)]
        j += [J("h_link", D71, 0, 0, a, a + 9, reach=[1, 2]) for a in range(1, 71, 10)] + [J("h_link", D81, 0, 0, a, a + 4, reach=[1, 2]) for a in range(1, 81, 5)]
        j += [V("h_long_loop", D64, 300, shards=4, shard_depth=1, cost=20), V("h_long_loop", D81, 60)] + [V("h_dir_chain", k, 3, reach=[1, 2]) for k in ALL]
    return j


prop("P12", "Sector chains are followed correctly, sound or not",
     "Reading a file or the directory yields exactly the data of its sector chain up to its end; if the chain is broken (a link out of range, an impossible length, a loop) the data "
     "before the defect is delivered and the defect is reported as such, always in finite time. Listing the used sectors, appending and deleting succeed exactly for sound chains, "
     "and a refused operation changes nothing.",
     ["inputs"], "every link structure over up to three sectors, every first link value, loops of any length within the bounds, every data content",
     "Tests read well-formed chains only.",
     ["src/disk/chain.rs", "src/disk/directory.rs", "src/disk/file.rs", "src/disk/geometry.rs"],
     [("link decoding", "src/disk/chain.rs ChainLink"), ("loop detection", "src/disk/chain.rs ChainIterator, ChainReader")],
     p12,
     {"quick": "any links among 2 sectors (every format) and 3 sectors, tails of every listed length, out-of-range and impossible links, all data contents; every value of the two link bytes of a first sector on D64 and for the out-of-range and edge tracks of the other formats; a 40-block chain looping back to any block; sound chains over a whole D64 and D71; directories of 2-3 sectors with any links",
      "thorough": "4 sectors, every link value on D71 and D81, 300-block loops"},
     "longer chains with arbitrary links")


# ---------------------------------------------------------------- P06 / P07 / P17 / P20 / P22
def p06(tier):
    q = tier == "quick"
    rng = {D64: ((0, 12), (13, 24), (25, 36), (37, 255)), D71: ((0, 18), (19, 36), (37, 54), (55, 70), (71, 255)),
           D81: ((0, 20), (21, 40), (41, 60), (61, 80), (81, 255)), D64_40: ((0, 20), (21, 41), (42, 255))}
    j = [J("h_addr", k, e, a, b, reach=([1] if b <= (35, 70, 80, 40)[k] else []) + [2] if a <= (35, 70, 80, 40)[k] else [2])
         for k in ALL for e in ((1,) if q and k != D64 else (0, 1)) for a, b in rng[k]]
    j += [J("h_write_len", k, e) for k in ALL for e in (0, 1)] + [J("h_format_info", k) for k in ALL]
    return j


prop("P06", "Every sector address maps to its own place in the image",
     "Reading or writing a sector accesses exactly the 256 bytes the format assigns to that track and sector, so no two sectors overlap and every byte of the image is reachable; any other track or "
     "sector number is refused, and enumerating the sectors yields each of them once. Writes that are not exactly one sector long are refused without effect, and the error table is the one byte per sector that follows the sectors.",
     ["inputs", "configurations"], "every track and sector number (0..255 each), every data content, all formats with and without error table",
     "A unit test sums up the layout tables; nothing checks bounds, the last sector of each track, or writes against the image file.",
     ["src/disk/block.rs", "src/disk/image.rs", "src/disk/mod.rs", "src/disk/d64.rs", "src/disk/d71.rs", "src/disk/d81.rs"],
     [("address computation", "src/disk/block.rs ImageBlockDevice::get_offset"), ("track tables", "src/disk/d64.rs, d71.rs, d81.rs")],
     p06,
     {"quick": "all 65536 locations on every format, with error table (D64 also without), with arbitrary sector data, compared with the backing file; eight wrong write lengths with arbitrary data",
      "thorough": "every format also without error table"},
     "sector contents before the access share 64 arbitrary bytes; the other bytes identify the sector")


def p07(tier):
    q = tier == "quick"
    j = [J("h_format", k, n, e, g) for k in ALL for n, e, g in (((5, 0, 0), (16, 1, 2), (0, 0, 1), (17, 1, 2)) if q else [(n, e, g) for n in (0, 1, 8, 15, 16, 17, 18, 40) for e in (0, 1) for g in (0, 1, 2)])]
    j += [V("h_format_valid", k, n, e) for k in ALL for n, e in (((3, 1), (16, 0)) if q else ((0, 0), (1, 1), (3, 1), (16, 0)))]
    return j


prop("P07", "Formatting yields an empty, valid disk whatever was there before",
     "After formatting, the image is byte for byte that of an empty disk with the given name and ID: every block free except those the system uses, an empty directory, no trace of earlier contents, "
     "and it validates and can be used at once. A name that does not fit is refused before anything is erased, and the error table is never touched.",
     ["inputs", "configurations"], "every prior sector content, every name and ID, CBM and GEOS disks, all formats with and without error table",
     "Tests format blank images only and look at a few fields.",
     ["src/disk/mod.rs", "src/disk/header.rs", "src/disk/bam.rs", "src/disk/format.rs"],
     [("formatting", "src/disk/mod.rs write_format"), ("system sectors", "src/disk/format.rs system_locations")],
     p07,
     {"quick": "one arbitrary block as the prior contents of all sectors, prior CBM, GEOS or unformatted disks, arbitrary names of 0, 5, 16 and 17 bytes, arbitrary ID; every format",
      "thorough": "eight name lengths and every combination of error table and prior kind"},
     "prior contents that differ from sector to sector; the unused first 16 bytes of the 1581 allocation sectors")


def p17(tier):
    q = tier == "quick"
    return ([J("h_header", k, reach=[1, 2, 3] + ([4] if k == D71 else [])) for k in ALL]
            + [J("h_header_write", k, n) for k in ALL for n in ((0, 5, 16, 17) if q else range(0, 20))])


prop("P17", "The disk header is read and written field by field",
     "Name, ID, version and directory fields of the header are read from their places whatever values they hold, and a GEOS disk is recognized by its signature alone; "
     "a 1571 image without the double-sided mark counts as unformatted and everything but reading sectors and formatting is refused. "
     "Writing the header stores the fields and the fixed padding and keeps every other byte of the disk.",
     ["inputs"], "every content of the 256-byte header sector, every new field value and name",
     "Unit tests decode four sample headers.",
     ["src/disk/header.rs", "src/disk/mod.rs", "src/disk/geos/mod.rs"],
     [("header fields", "src/disk/header.rs Header"), ("GEOS signature", "src/disk/geos/mod.rs GEOSDiskHeader")],
     p17,
     {"quick": "all 2^2048 header sectors on every format; arbitrary new fields over arbitrary old sectors with names of 0, 5, 16, 17 bytes",
      "thorough": "names of 0 to 19 bytes"},
     "none beyond the name lengths")


def p20(tier):
    q = tier == "quick"
    j = [V("h_read_only", k, f, 1) for k in (DOS if q else ALL) for f in (0, 1, 2)]
    return j + [V("h_read_only", k, f, 2) for k, f in ([(0, 1), (1, 2)] if q else [(k, f) for k in ALL for f in (0, 1, 2)])]


prop("P20", "A read-only image is never modified",
     "Opened read-only, a disk can be listed, read and validated, but every modifying operation is refused with the read-only error; the image file, the contents shown and the in-memory "
     "allocation state stay exactly as they were.",
     ["inputs", "programs"], "every modifying operation of the interface, arbitrary file contents, directories with and without free slots",
     "One test tries to obtain a writer; the others never open an image read-only.",
     ["src/disk/image.rs", "src/disk/block.rs", "src/disk/mod.rs", "src/disk/chain.rs", "src/disk/file.rs"],
     [("writability check", "src/disk/image.rs check_writability")],
     p20,
     {"quick": "19 operations on a read-only image opened by type, by extension and by size, with two files of arbitrary contents and a partly or completely full directory sector, or also a GEOS and a relative file, D64, D71, D81; pairs of operations on D64 and D71", "thorough": "pairs of operations on all disk types, also 40-track D64"},
     "sequences of three or more operations on a read-only image")


def p22(tier):
    q = tier == "quick"
    j = [J("h_open", k, e) for k in ALL for e in (0, 1)] + [J("h_open_bad", k) for k in DOS]
    j += [J("h_create_image", k, e, reach=[1, 2, 3]) for k in ALL for e in ((k % 2,) if q else (0, 1))]
    j += [V("h_persist", k, e) for k in ALL for e in ((1 - k % 2,) if q else (0, 1))]
    j += [J("h_extension", n, reach=[1, 2] if n in (3, 4, 5, 6, 7, 13, 14, 15) else [1]) for n in range(16)]
    return j


prop("P22", "Image files are recognized, created and kept up to date",
     "An image file is opened as the kind its extension or else its size tells, showing exactly its sectors, and a file of any other size is refused untouched. Creating makes a blank image, "
     "never overwriting a file when told not to and replacing it completely otherwise. "
     "Everything done to a writable image is in the file, so opening it again shows the same disk.",
     ["inputs", "histories", "configurations"], "every format with and without error table, four kinds of names, arbitrary contents; five kinds of wrong size; every operation followed by closing and reopening",
     "The tests work in memory; only the sample program opens files.",
     ["src/disk/mod.rs", "src/disk/image.rs", "src/disk/d64.rs", "src/disk/d71.rs", "src/disk/d81.rs"],
     [("choice of the image kind", "src/disk/mod.rs open, DiskType::from_extension"), ("memory-mapped image", "src/disk/image.rs Image")],
     p22,
     {"quick": "names with matching extension in either case, none and a foreign one; every name of up to seven ASCII characters and every extension of up to seven; read-only and writable; seven wrong sizes; prior files of four sizes; four operations with arbitrary data before reopening", "thorough": "every combination of kind and error table"},
     "operating system failures; other extensions; images changed by another program while open")


# ---------------------------------------------------------------- P11 / P14 / P15 / P16
def p11(tier):
    q = tier == "quick"
    ks = DOS if q else ALL
    j = [V("h_linear_delete", k, n) for k in ks for n in ((1, 3, 256) if q else (1, 2, 3, 20, 255, 256, 257, 300))]
    j += [V("h_linear_delete", k, n) for k, n in ((D64, 662), (D71, 1326), (D81, 3158))]
    j += [V("h_rel_delete", k, n) for k in ks for n in ((1, 120, 121, 480) if q else (1, 2, 119, 120, 121, 240, 241, 250, 480))] + [V("h_rel_delete", k, 720) for k in (D71, D81)]
    j += [V("h_geos_delete", k, s, i) for k in ks for s in (*range(10), 13, 14) for i in ((k % 2,) if q else (0, 1))] + [V("h_geos_delete", k, s, i) for k in ks for s, i in ((0, 1 - k % 2), (4, 1 - k % 2))]
    j += [V("h_chain", D64, 2, 0, reach=[1, 2])]
    j += [V("h_history", D64, 1, 7, 0, 1, cost=5), V("h_history", D81, 1, 0, 1, 1, cost=5), V("h_history", D71, 1, 0, 0, 1, 1, cost=5), V("h_full", D64, 1, 3, reach=[1, 2])]
    return j


prop("P11", "Deleting a file frees exactly its sectors",
     "Deleting a plain, relative or GEOS file makes exactly the sectors it used (data, side sectors, info block, index and all records) free, in memory and in the image, and marks only its directory entry. "
     "All other sectors, entries and files stay as they were and the disk remains valid.",
     ["inputs", "configurations"], "every data content, type byte and flags; files of each structure with sectors scattered over the disk",
     "No test deletes a relative or GEOS file; the tests for plain files do not look at the image.",
     ["src/disk/file.rs", "src/disk/chain.rs", "src/disk/bam.rs", "src/disk/geos/file.rs"],
     [("collect the sectors, then free them all", "src/disk/chain.rs remove_locations"), ("side sectors, info block, records", "src/disk/file.rs, src/disk/geos/file.rs delete")],
     p11,
     {"quick": "plain files of 1, 3, 256 blocks and the whole disk with any type byte, relative files of 1, 120, 121, 480 and 720 blocks, twelve GEOS structures (up to 127 records), all contents arbitrary; D64, D71, D81; any links among 2 sectors; one operation on disks with other files, CBM and GEOS; deletion on a full disk",
      "thorough": "more sizes, every GEOS structure with and without info block, 40-track D64"},
     "files sharing sectors with others")


def p14(tier):
    q = tier == "quick"
    r = [1, 2]
    j = [J("h_rel", D64, 1, 200, 0, 255, reach=r, cost=5), J("h_rel", D64, 3, 254, 0, 255, reach=r, cost=5), J("h_rel", D71, 2, 192, 0, 255, reach=r, cost=5), J("h_rel", D81, 3, 2, 0, 255, reach=r, cost=5),
         J("h_rel", D64, 5, 254, 200, 255, reach=r), J("h_rel", D64, 5, 4, 250, 255, reach=r),
         J("h_rel", D64, 130, 252, 2, 5, reach=r), J("h_rel", D81, 121, 1, 100, 104, reach=[2]), J("h_rel", D81, 255, 254, 254, 255, reach=[1]),
         J("h_rel", D64, 605, 254, 254, 255, reach=r), J("h_rel", D71, 720, 254, 127, 128, reach=r)]
    j += [J("h_rel", D64, 2, 0, 1, 3, reach=r, cost=9), J("h_rel", D71, 3, 0, 254, 254, reach=r, cost=9), J("h_rel", D81, 1, 0, 127, 128, reach=r, cost=9)]
    j += [J("h_rel_bad", D64, 3, 130, reach=r), J("h_rel_bad", D81, 3, 605, reach=r), J("h_rel_bad", D71, 3, 721, reach=[2])]
    j += [J("h_rel_bad", k, 0, lo, reach=r) for k in (D64, D81) for lo in (0, 3)] + [J("h_rel_bad", k, 1, reach=r) for k in (D64, D71)] + [J("h_rel_bad", k, 2, reach=[2]) for k in DOS]
    j += [V("h_rel_delete", D64, 3)]
    if not q:
        j += [J("h_rel", k, n, l, 0, 255, reach=r, cost=9) for k in ALL for n, l in ((1, 1), (1, 254), (2, 100), (4, 254), (6, 30), (8, 255 - 1))]
        j += [J("h_rel", k, n, l, 250, 255) for k in DOS for n, l in ((255, 254), (254, 254), (510, 254))]
        j += [J("h_rel_bad", k, 0, lo, reach=r) for k in ALL for lo in (0, 1, 2, 3)]
    return j


prop("P14", "Relative files deliver each record exactly",
     "Record i of a relative file is exactly the i-th stretch of record-length bytes of its data, also across block and side-sector boundaries; the record count is the number of such stretches and any other index is refused. "
     "A file whose side sectors, lengths or record length are inconsistent is refused as malformed, and it can be neither read nor written as a plain file.",
     ["inputs"], "every record length 0..255, every record, every data content, every side-sector list and length field",
     "One test reads a sample file with one record length.",
     ["src/disk/file.rs", "src/disk/directory.rs", "src/disk/block.rs"],
     [("record position", "src/disk/file.rs RelativeFile::record_position"), ("side sector checks", "src/disk/file.rs RelativeFile::new")],
     p14,
     {"quick": "all 256 record lengths on files of 1 to 3 blocks with several last-block sizes, selected lengths on files of 5, 121, 130 and 255 blocks; all records of each; three arbitrary pairs of the side-sector list, all values of the side sector's length byte, all links of the last block",
      "thorough": "all record lengths on six more sizes, files with several side sectors"},
     "more than six side sectors")


def p15(tier):
    q = tier == "quick"
    j = [J("h_geos_records", k, s, l, i) for k, s, l, i in ([(k, s, l, i) for k in DOS for s, l, i in ((0, 100, 1), (1, 1, 0), (3, 100, 1), (4, 254, 0), (5, 7, 1), (6, 7, 0), (9, 2, 1))] if q
                                                          else [(k, s, l, i) for k in ALL for s in range(10) for l in (1, 2, 100, 253, 254) for i in (0, 1)])]
    j += [J("h_geos_records", k, s, 77, k % 2) for k in DOS for s in (13, 14)]
    j += [J("h_geos_records", k, s, 0, i, cost=9) for k, s, i in (((D64, 3, 1), (D81, 0, 0), (D71, 8, 0)) if q else [(k, s, i) for k in DOS for s in (0, 1, 2, 3, 4, 7, 8) for i in (0, 1)])]
    j += [J("h_vlir_index", D64, 0, 5), J("h_vlir_index", D64, 123, 4), J("h_vlir_index", D81, 60, 3)]
    j += [J("h_info"), J("h_border", D64, reach=[1, 2]), J("h_border", D81, reach=[1, 2]), J("h_border", D71, reach=[1, 2])]
    if not q:
        j += [J("h_vlir_index", k, a, 6) for k in ALL for a in (0, 60, 121)]
    return j


prop("P15", "GEOS files: records, info block and border entries",
     "Each record of a GEOS file is exactly the data of its chain, an unavailable record is empty, the records end at the index's end mark and any other index is refused; "
     "the used sectors are index, info block and all records. The info block's fields are read from and written to their places exactly. "
     "Entries in the border block are listed after the directory, marked as such and changed in place.",
     ["inputs"], "every data content, every pattern of available, unavailable and end entries within the bounds, every info block, every border entry type",
     "No test opens a GEOS file.",
     ["src/disk/geos/file.rs", "src/disk/geos/mod.rs", "src/disk/directory.rs"],
     [("index parsing", "src/disk/geos/file.rs GEOSFile::new"), ("info block", "src/disk/geos/mod.rs GEOSInfo"), ("border block", "src/disk/directory.rs DirectoryIterator")],
     p15,
     {"quick": "seven file structures on each format with arbitrary data, files with 127 records, all patterns of 3-5 index entries at the start, the middle and the end of the index, all info blocks, all types of three border entries",
      "thorough": "ten structures, five tail lengths, patterns of 6 entries"},
     "records longer than nine blocks")


def p16(tier):
    q = tier == "quick"
    j = [J("h_cvt", k, s, l, n) for k, s, l, n in ([(D64, s, l, n) for s in (0, 1, 3, 4, 5, 7) for l, n in ((100, 0), (254, 1), (1, 253))] + [(D71, 3, 9, 254), (D81, 4, 77, 255), (D81, 1, 3, 508), (D64, 8, 5, 1000)] if q
                                                  else [(k, s, l, n) for k in ALL for s in range(10) for l in (1, 2, 100, 253, 254) for n in (0, 1, 7, 253, 254, 255, 508, 1000)])]
    j += [J("h_cvt", k, s, 0, n, cost=9) for k, s, n in (((D64, 3, 0), (D81, 1, 255), (D71, 8, 0)) if q else [(k, s, n) for k in DOS for s in (0, 1, 2, 3, 4, 7, 8) for n in (0, 254, 255)])]
    j += [J("h_cvt_split", D64, s, l) for s, l in ((3, 100), (1, 254), (5, 1), (4, 1))]
    j += [J("h_cvt_noinfo", k, v) for k in DOS for v in (0, 1)]
    j += [J("h_cvt", k, s, 9, 100) for k in DOS for s in (13, 14)] + [J("h_cvt", D64, 10, 3, 0)] + [J("h_cvt_big", k, s) for k, s in (((D64, 11), (D81, 12)) if q else [(k, s) for k in ALL for s in (11, 12)])]
    if not q:
        j += [J("h_cvt_split", k, s, l) for k in (D71, D81) for s in range(10) for l in (1, 100, 254)]
    return j


prop("P16", "GEOS files convert to the right byte stream",
     "Reading a GEOS file in Convert format yields directory entry and signature, info block, the index with block counts and last-byte positions, and every record in order with padding between records, exactly once, "
     "however the reads are split; a file without info block or with a record of more than 255 blocks is refused.",
     ["inputs", "histories"], "every content of entry, info block and records; every way of splitting the stream in two, and fixed buffer sizes",
     "No test reads a Convert stream.",
     ["src/disk/geos/reader.rs", "src/disk/geos/file.rs"],
     [("stream states", "src/disk/geos/reader.rs GEOSReader")],
     p16,
     {"quick": "six file structures and files with 127 records with arbitrary contents and three last-block sizes (every size on three of them), buffers of 1, 253, 254, 255, 508, 1000 bytes and unlimited; every split point of four streams",
      "thorough": "ten structures, five sizes, eight buffers on every format; every split point of 60 streams"},
     "streams of damaged files (P13)")


# ---------------------------------------------------------------- P08
def p08(tier):
    q = tier == "quick"
    j = [V("h_validate", k, s, g, reach=[1, 2]) for k, s, g in ([(D64, 0, 0), (D64, 1, 1), (D64, 2, 0), (D64, 3, 1), (D71, 0, 1), (D71, 2, 0), (D81, 1, 0), (D81, 2, 1)] if q
                                                               else [(k, s, g) for k in ALL for s in range(4) for g in (0, 1)])]
    j += [V("h_validate_cross", k, g) for k, g in (((D64, 1), (D71, 0), (D81, 1)) if q else [(k, g) for k in ALL for g in (0, 1)])]
    j += [V("h_validate_geos", k, s) for k, s in (((D64, 3), (D71, 0), (D81, 5)) if q else [(k, s) for k in ALL for s in range(10)])]
    j += [V("h_validate_track", k, a, min(a + w - 1, (35, 70, 80)[k]), cost=5) for k, w in ((D64, 18), (D71, 10), (D81, 5)) for a in range(1, (35, 70, 80)[k] + 1, w)]
    j += [V("h_validate_extra", k) for k in (D64, D64_40)] + [V("h_validate_unformatted", D71)]
    return j


prop("P08", "Validation reports exactly the inconsistencies of the disk",
     "Validating a disk reports every system sector marked free, every sector marked used that nothing occupies, every occupied sector marked free with its owner, every sector claimed twice with both owners, "
     "and every file whose sectors cannot be determined with the reason, and nothing else. It changes nothing, and an unformatted disk is refused.",
     ["inputs", "configurations"], "arbitrary allocation bits of six sectors at a time, files sharing sectors with each other, the directory or the system, damaged chains, plain, relative and GEOS files, with and without border block",
     "The tests validate a few sample disks that are consistent or damaged in one way.",
     ["src/disk/validation.rs", "src/disk/bam.rs", "src/disk/chain.rs", "src/disk/file.rs", "src/disk/geos/file.rs"],
     [("comparison of occupied and allocated sectors", "src/disk/validation.rs validate"), ("sectors of each file", "src/disk/file.rs occupied_sectors")],
     p08,
     {"quick": "a disk with two plain files and a relative file, six allocation bits arbitrary out of four candidate sets; eight first sectors x ten links of a damaged file; GEOS files and a border entry with four arbitrary bits, the border block at five places; arbitrary free counts; every track marked used or free as a whole, with a file on its first, middle or last sector claimed once or twice and listed in a second directory sector; D64, D71, D81, 40 tracks",
      "thorough": "every candidate set on every format with and without border block; ten GEOS structures"},
     "more than six allocation bits changed at once; more than four files")


# ---------------------------------------------------------------- P13
def p13(tier):
    q = tier == "quick"
    L, C = dict(reach=[1]), dict(reach=[2])
    j = [V("h_any_entry", D64, 9, 0, shards=6, shard_depth=2, cost=20, **L), V("h_any_entry", D64, 1, 0, shards=3, shard_depth=2, cost=15, **C), V("h_any_entry", D64, 2, 1, shards=3, shard_depth=2, cost=15, **C)]
    j += [V("h_any_side", D64, 9, shards=4, shard_depth=2, cost=15, **L), V("h_any_side", D64, 2, cost=8, **C), V("h_any_index", D64, 9, shards=3, shard_depth=2, cost=15, **L), V("h_any_index", D64, 2, cost=8, **C)]
    j += [V("h_any_dir", k, m, reach=[1 if m == 9 else 2]) for k, m in ((D64, 9), (D64, 0), (D71, 1), (D81, 0), (D64_40, 3))]
    j += [V("h_any_header", k, m, reach=[1 if m == 9 else 2]) for k, m in ((D64, 9), (D64, 0), (D71, 2), (D81, 3))]
    j += [V("h_any_bam", k, m, reach=[1 if m == 9 else 2]) for k, m in ((D64, 9), (D64, 0), (D71, 0), (D81, 1), (D81, 2))]
    j += [V("h_any_fill", k, m, reach=[1 if m == 9 else 2]) for k in ALL for m in (9, 0)]
    j += [V("h_any_chain", k, m, reach=[1 if m == 9 else 2]) for k, m in ((D64, 9), (D64, 1), (D64, 2))]
    j += [J("h_any_args", D64, reach=[1]), J("h_cvt_big", D64, 11)]
    if not q:
        j += [V("h_any_entry", k, m, g, 1, shards=16, shard_depth=2, cost=50, reach=[1 if m == 9 else 2]) for k in (DOS if tier == "thorough" else (D64,)) for m in (9, 0, 1, 2, 3) for g in (0, 1)]
        j += [V(h, k, m, 1, shards=8, shard_depth=2, cost=30, reach=[1 if m == 9 else 2]) for h in ("h_any_side", "h_any_index") for k in DOS for m in (9, 1, 2)]
        j += [V(h, k, m, cost=9, reach=[1 if m == 9 else 2]) for h in ("h_any_dir", "h_any_header", "h_any_bam", "h_any_fill", "h_any_chain") for k in ALL for m in (9, 0, 1, 2, 3)]
        j += [J("h_any_args", k, reach=[1]) for k in ALL]
    return j


prop("P13", "No image makes an operation panic or hang",
     "Whatever an image contains - wrong locations, loops, foreign directory entries, damaged side sectors, indexes, headers or allocation maps - every operation on it ends and returns a result or an error; it never panics or runs forever. "
     "Operations that only look at the disk change nothing.",
     ["inputs", "configurations"], "every type byte with any combination of the listed pointers in directory entry, side sector, index, directory, header and chains; arbitrary header bytes and free counts; images filled with one byte",
     "The tests only use well-formed images.",
     ["src/disk/directory.rs", "src/disk/chain.rs", "src/disk/file.rs", "src/disk/geos/file.rs", "src/disk/geos/reader.rs", "src/disk/header.rs", "src/disk/bam.rs", "src/disk/validation.rs", "src/disk/mod.rs"],
     [("chain walking", "src/disk/chain.rs ChainIterator, ChainReader, ChainWriter"), ("directory walking", "src/disk/directory.rs DirectoryIterator"), ("relative and GEOS structures", "src/disk/file.rs RelativeFile::new, src/disk/geos/file.rs GEOSFile::new")],
     p13,
     {"quick": "list, open, read, records, sectors, details, dump, info, Convert stream, validate, show (look) and create, append, rename, delete, delete all (change) on images with one damaged structure: all 256 type bytes x 6 first sectors x 4 second pointers x 7 kinds of entries; 9 links x 36 side-sector lists; 432 indexes; 12 directory links x 6; border pointers and header bytes; counts and bitmaps that disagree; 324 combinations of links; 16 fill bytes; D64 mainly, others in part",
      "thorough": "all pointer sets and operations on every format"},
     "images with several unrelated damages; arbitrary bytes in every place at once")


# ---------------------------------------------------------------- P18 / P19 / P23 / P24
prop("P18", "PETSCII and Unicode conversion agree",
     "Every PETSCII code is shown as its character, and every Unicode character is converted to the first code shown as that character or else to the substitute code, one code per character, so converting to text and back never changes what is shown. "
     "Raw bytes are kept exactly, and padding a field and removing the padding again returns the text without trailing pad bytes, or refuses a text that does not fit.",
     ["inputs"], "all 256 codes, all 1,112,064 Unicode characters, all byte strings and pad bytes within the length bound",
     "The tests look at some two dozen codes and never at the conversion from Unicode.",
     ["src/petscii.rs", "src/disk/mod.rs"],
     [("character chart", "src/petscii.rs PETSCII_TO_CHAR_MAP, from_str_lossy"), ("padded fields", "src/petscii.rs from_padded_bytes, write_bytes_with_padding")],
     lambda tier: [J("h_pet_show", 0), J("h_pet_from", 0, reach=[1, 2, 3])] + [J("h_pet_bytes", n) for n in ((0, 1, 2, 5, 16) if tier == "quick" else range(0, 33))],
     {"quick": "all codes and characters, one at a time between fixed neighbours; byte strings of lengths 0, 1, 2, 5, 16 with field sizes up to three more", "thorough": "byte strings of every length 0..32"},
     "conversion depends on one character at a time (strings of several arbitrary characters are not explored)")

prop("P19", "Sprites are drawn pixel by pixel",
     "A sprite's 63 bytes are kept exactly, and drawing it as text gives 11 lines of 12 block characters in which every one of the 24x21 pixels is on exactly where its bit is set.",
     ["inputs"], "all values of each group of four pixels at every position, over three backgrounds; all 63-byte values for the storage",
     "The repository has no test for sprites.",
     ["src/sprite.rs"],
     [("block elements", "src/sprite.rs Sprite::to_unicode")],
     lambda tier: [J("h_sprite", i) for i in (0, 1, 2)] + [J("h_sprite_bytes", 0)],
     {"quick": "132 positions x 16 values x 3 backgrounds", "thorough": "same"},
     "two groups of pixels arbitrary at once")

prop("P23", "Errors keep their identity through std::io::Error",
     "Every disk error converted to a standard I/O error has the documented kind, carries its own message, compares equal to itself and to no other error, and can be recovered; any other I/O error is recognized as foreign.",
     ["inputs"], "all 25 errors and all pairs of them",
     "No test looks at kinds or at conversion of foreign errors.",
     ["src/disk/error.rs"],
     [("conversion", "src/disk/error.rs From<DiskError> for io::Error, from_io_error")],
     lambda tier: [J("h_errors", 0)],
     {"quick": "all pairs of errors; two foreign errors", "thorough": "same"},
     "other foreign errors")


def p24(tier):
    q = tier == "quick"
    ks = (D64,) if q else ALL
    j = [J("h_show_entry", k, s, b, a, cost=5) for k in ks for s, b, a in ((0, 0, 1), (0, 0, 2), (0, 1, 6), (1, 0, 4), (1, 0, 8), (2, 0, 4), (2, 1, 8), (2, 1, 2), (1, 1, 4))]
    j += [J("h_show_entry", k, 2, 1, 8) for k in (D71, D81)]
    j += [J("h_show_disk", k, g, a) for k in ((D64, D81) if q else ALL) for g in (0, 1) for a in range(5 + g)]
    j += [J("h_dump_file", k, n, a) for k, n, a in ((D64, 0, 0), (D64, 1, 0), (D64, 15, 13), (D64, 16, 14), (D64, 17, 14), (D64, 40, 31), (D71, 254, 250), (D81, 300, 253))]
    j += [J("h_dump_disk", D64, e, t, s, cost=9) for e, t, s in (((1, 18, 3), (0, 35, 16)) if q else ((1, 1, 0), (1, 17, 20), (1, 31, 16), (0, 35, 16)))] + [J("h_dump_disk", D64_40, 1, 40, 16, cost=9)]
    if not q:
        j += [J("h_dump_disk", k, 1, t, s, steps=4000000000, cost=30) for k, t, s in ((D71, 70, 16), (D81, 80, 39))]
    j += [J("h_show_details", k, s) for k in DOS for s in (0, 1, 2, 3)]
    j += [J("h_show_info", f) for f in range(10)] + [J("h_show_validation", 0)]
    return j


prop("P24", "Listings, details and dumps show what is on the disk",
     "A directory line shows the entry's block count, name, type and flags, and on request its extra data; the title line shows the disk's name, id and format; details list exactly the file's sectors in order; "
     "dumps show every byte of every record or sector at its offset; an info block is shown with all its fields and its icon.",
     ["inputs"], "every block count, type byte, name character, date, record length, program address and dumped byte, a few at a time",
     "The tests never look at the text that is produced.",
     ["src/disk/directory.rs", "src/disk/mod.rs", "src/disk/file.rs", "src/disk/block.rs", "src/disk/geos/mod.rs", "src/disk/geos/file.rs", "src/disk/validation.rs", "src/util/mod.rs"],
     [("listing line", "src/disk/directory.rs Display for DirectoryEntry"), ("hex dump", "src/util/mod.rs hexdump"), ("details", "src/disk/file.rs, src/disk/geos/file.rs details")],
     p24,
     {"quick": "one arbitrary field at a time; names of 0, 1, 7, 15, 16 characters; all 256 types; dumps of files of eight lengths and of whole D64 images with error table; four file structures; five validation messages with any location",
      "thorough": "all formats"},
     "several arbitrary name characters at once")

def C(h, *p, **kw):
    return J(h, *p, hash_const=False, cli=True, **kw)


def p25(tier):
    q = tier == "quick"
    j = [C(h, k) for h in ("h_cli_read", "h_cli_write", "h_cli_change", "h_cli_show", "h_cli_fail", "h_cli_bam_range") for k in (DOS if q else ALL)]
    j += [C("h_cli_full", k, reach=[1, 2]) for k in (DOS if q else ALL)]
    j += [C("h_cli_create", reach=[1, 2])] + [C("h_cli_geos", k, s) for k, s in ((D64, 0), (D64, 3), (D81, 1), (D71, 9))]
    j += [J("h_type_name", n, reach=[1, 2] if n == 3 else [1]) for n in range(8)]
    return j


prop("P25", "The cdisk program does what its commands say",
     "Each command of the program does on the image file what its name says and nothing else: contents are read, written, appended and converted exactly, with the given name and type; "
     "listings, dumps and validation print what the library reports and change nothing; allocation edits change exactly the sectors named. "
     "A command that fails says so on standard error and with a non-zero exit status, and one that is refused leaves the image as it was and makes no output file.",
     ["inputs", "programs"], "every subcommand with arbitrary file contents and names",
     "No test runs the program.",
     ["src/bin/cdisk.rs"], [("subcommands", "src/bin/cdisk.rs main, cmd_*")],
     p25,
     {"quick": "every subcommand with and without its optional arguments, file contents of 0..600 arbitrary bytes, new names with an arbitrary printable character, every file type name of up to seven ASCII characters, 28 failing command lines, 110 track/sector pairs around the edges, disks with 0..2 sectors left, on D64, D71 and D81", "thorough": "also 40-track D64"},
     "other command lines: the commands and most arguments are taken from lists; help texts; failures of the host's file system", cli=True)
