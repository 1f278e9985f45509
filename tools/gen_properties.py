#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe or [], hook_needed=hook)))
HOOK = "cfg(cbm_sim): src/disk/sim.rs reports every access to the image bytes (read, write, sync) to the simulator, which may fail it"

prop("C01", "Files read back exactly the bytes their writers accepted",
 "For any interleaving of file creations, appends, flushes, closes, renames and deletions over any number of files (with at most one open writer per file), reading a file whose writer is closed yields exactly the concatenation, in order, of the bytes its writers reported as accepted, whatever chunk sizes were used to write and to read it. A reader used while the file's writer is still open yields a prefix of that concatenation which contains at least everything that had been flushed when the reader was opened.",
 ["schedules", "histories", "inputs", "configurations"],
 "all interleavings of any number of open writers, readers and metadata operations, all chunkings of writes and reads, all image types, geometries and initial contents",
 "Tests write one file of a few sizes to a fresh in-memory disk with one write_all call and read it back with read_to_end; never two open writers, partial reads, fragmented or prefilled disks.",
 ["src/disk/chain.rs", "src/disk/file.rs", "src/disk/mod.rs", "src/disk/block.rs"],
 [("ChainWriter::write / allocate_next_block / flush / Drop", "src/disk/chain.rs"), ("ChainReader::read, ChainIterator::next", "src/disk/chain.rs"), ("Disk::create_file", "src/disk/mod.rs")],
 [("tail block buffer", "bytes accepted but not yet stored", "src/disk/chain.rs ChainWriter.block"), ("shared BAM", "which sectors may be handed to the next writer", "src/disk/bam.rs Bam.entries")],
 ["File::reader, FileOps::record, FileOps::writer"])

prop("C02", "Every sector has exactly one owner and the free map agrees",
 "After any history of operations, once all writers are closed, every sector of the standard tracks is either free or owned by exactly one of: the system area, the directory, or one listed file, and the free map on the image, its per-track free counts, the reported number of blocks free and the recorded block count of every created file all agree with that ownership. Deleting a file of any kind gives back exactly the sectors it owned.",
 ["histories", "schedules", "configurations"],
 "all histories of create, append, rename, delete, format over plain, relative and GEOS files with several writers open at once, on every image type",
 "Tests validate a few fixed fill-the-disk loops; they never delete a relative or GEOS file, never interleave writers, and never compare recorded sizes with chains.",
 ["src/disk/bam.rs", "src/disk/chain.rs", "src/disk/file.rs", "src/disk/geos/file.rs", "src/disk/mod.rs", "src/disk/directory.rs"],
 [("Bam::allocate/free/flush, BamWriter::write", "src/disk/bam.rs"), ("delete of LinearFile, RelativeFile, GEOSFile", "src/disk/file.rs, src/disk/geos/file.rs"), ("increment_entry_blocks", "src/disk/chain.rs"), ("next_free_directory_entry", "src/disk/directory.rs")],
 [("BAM bitmap and free counts", "free sectors per track, in memory and on the image", "src/disk/bam.rs")],
 ["raw image bytes", "Disk::blocks_free", "Disk::bam"])

prop("C03", "Disk-full errors are truthful, clean and recoverable",
 "A write or file creation reports a full disk only when no free data sector remains (or, for a creation, when the directory can hold no further entry), and every operation that needs no further sector still succeeds on a full disk. A request refused this way loses and duplicates nothing: bytes accepted before stay readable, bytes not accepted are absent, the image stays consistent, and as soon as another file is deleted the same open writer, or a new creation, continues normally.",
 ["histories", "schedules", "configurations"],
 "all ways of exhausting data sectors or directory entries with any number of writers open, followed by any deletions and continued writing",
 "Tests fill a disk once with one writer and stop at the first error; nothing frees space again, retries the refused bytes, or fills the disk with several writers open.",
 ["src/disk/format.rs", "src/disk/chain.rs", "src/disk/directory.rs", "src/disk/mod.rs"],
 [("first_free_block / next_free_block", "src/disk/format.rs"), ("allocate_next_block rollback", "src/disk/chain.rs"), ("create_file rollback", "src/disk/mod.rs")],
 [("free sectors left", "what the next allocation sees", "src/disk/bam.rs")], ["Write::write result", "Disk::create_file result"])

prop("C04", "Flushed data survives power loss",
 "Once a flush of a file's writer has reported success, the file's flushed bytes can be read back after a power loss at any later moment, whichever of the later unsynchronised sector writes did or did not reach the medium, unless the file is deleted or the disk formatted after that flush. If nothing written after a successful flush or format reached the medium, the image found after the power loss is fully consistent.",
 ["crash_points", "fault_sequences", "histories", "schedules"],
 "power loss at every point after any history; the surviving image is the last synchronised state plus any subset (and any intermediate version, possibly torn between directory entries) of later sector writes",
 "No test ever checks what reached the backing file, when the image is synchronised, or what a partially persisted image looks like.",
 ["src/disk/chain.rs", "src/disk/image.rs", "src/disk/bam.rs", "src/disk/mod.rs"],
 [("ChainWriter::flush order: block, BAM, medium", "src/disk/chain.rs"), ("Image::flush (msync)", "src/disk/image.rs"), ("write_format sync", "src/disk/mod.rs")],
 [("mapped file vs durable file", "what has been synchronised", "memmap MmapMut")], ["msync of the mapped image", "raw durable bytes"], HOOK + "; the C library msync is interposed in the harness binary")

prop("C05", "A killed process leaves a usable image",
 "If the process is killed between any two sector writes of any operation other than a format, the image it leaves still opens; every file not being operated on reads back unchanged; a file being appended to reads back at least its flushed bytes and nothing but a prefix of the accepted ones. The creation, renaming or deletion in progress has either happened or not happened, and no sector belonging to a listed file or to the directory is marked free, so later writes cannot destroy it; at worst sectors are lost or a recorded count is stale.",
 ["crash_points", "histories", "schedules"],
 "a kill between every pair of sector writes of every operation, over any history and any set of open writers",
 "Tests only observe state between completed operations; no test inspects an intermediate image.",
 ["src/disk/chain.rs", "src/disk/mod.rs", "src/disk/directory.rs", "src/disk/file.rs", "src/disk/geos/file.rs"],
 [("ordering of block, BAM, entry and link writes", "src/disk/chain.rs allocate_next_block"), ("create_file, next_free_directory_entry ordering", "src/disk/mod.rs, src/disk/directory.rs"), ("delete ordering", "src/disk/file.rs, src/disk/geos/file.rs")],
 [("image bytes between two writes", "what a killed process leaves", "mapped image")], ["raw image bytes at every write"], HOOK)

prop("C06", "Reopening or re-initialising shows the same disk",
 "Whenever no writer is open, dropping the disk and opening the image again (read-only or writable, with the type taken from the file extension or from the file size), or re-initialising it in place, shows the same disk name, listing, file contents, free sectors and validation result as before. This also holds for files created but never written, and when the disk object was dropped before its still-open writers, and file handles, readers and writers that were open across a re-initialisation keep working as if nothing had happened.",
 ["histories", "configurations", "schedules"],
 "every point of every history at which no writer is open, every way of opening the image, every image type",
 "Tests never reopen an image: everything is checked on the in-memory object that performed the operations, so state that never reaches the image goes unnoticed.",
 ["src/disk/mod.rs", "src/disk/bam.rs", "src/disk/directory.rs", "src/disk/image.rs", "src/disk/d64.rs", "src/disk/d71.rs", "src/disk/d81.rs"],
 [("Bam::flush at the end of every metadata operation", "src/disk/bam.rs and callers"), ("Disk::initialize, set_bam replacing the shared cell", "src/disk/mod.rs"), ("disk::open type detection", "src/disk/mod.rs")],
 [("in-memory BAM vs image BAM", "must agree when no writer is open", "src/disk/bam.rs")], ["disk::open", "Disk::initialize"])

prop("C07", "I/O errors stay contained",
 "If any sector read, sector write or synchronisation fails during an operation on an open disk, the operation either still does its job or reports an error, without panicking; other files and everything already flushed stay intact, no sector of a listed file becomes free, and the failed creation, renaming or deletion has either happened or not happened. What would be refused without the error is not done because of it. Unless undoing a failed operation fails as well, no space is lost and the disk's idea of what is free and how large files are stays exact, and the next successful flush of written data records that idea on the image. Once the errors stop, retrying on the same handles and disk succeeds, and a writer whose write or flush failed can continue without losing or duplicating accepted bytes. A disk whose re-initialisation met an I/O error is refused for new files until it is initialised again, which then works; a writer left over from before may fail but never damages anything that was written since.",
 ["fault_sequences", "histories", "schedules"],
 "every placement of single failures and bursts of failures among the sector accesses and synchronisations of any history with any set of open handles",
 "Tests never see an I/O error: no test double can fail an access, so every error path and rollback is unexercised.",
 ["src/disk/chain.rs", "src/disk/mod.rs", "src/disk/directory.rs", "src/disk/bam.rs", "src/disk/file.rs", "src/disk/geos/file.rs"],
 [("rollbacks in allocate_next_block and create_file", "src/disk/chain.rs, src/disk/mod.rs"), ("delete order", "src/disk/file.rs"), ("dirty flag of ChainWriter::flush", "src/disk/chain.rs")],
 [("in-memory allocation state after an error", "must match what is owned", "src/disk/bam.rs")], ["results of all operations", "raw image bytes"], HOOK)

prop("C08", "Refused requests change nothing",
 "A request that is refused because of its arguments or the state of the disk (a name too long, already taken or unknown; an entry without a place; a file kind that cannot be opened that way; a record index, sector location or block length out of range; an unformatted disk; an image of impossible size) leaves every byte of the image, every open handle and every later report of the disk exactly as they were. Names count as taken regardless of trailing padding characters.",
 ["histories", "inputs", "schedules"],
 "every kind of refused request at any point of any history with any handles open, on every image type",
 "Tests check a few error codes but never compare the image or later behaviour before and after a refusal.",
 ["src/disk/mod.rs", "src/disk/directory.rs", "src/disk/file.rs", "src/disk/block.rs", "src/disk/header.rs"],
 [("check_filename_validity / check_filename_availability before any change", "src/disk/mod.rs"), ("get_offset range check", "src/disk/block.rs"), ("write_format argument checks", "src/disk/mod.rs")],
 None, ["raw image bytes", "results of all operations"])

prop("C09", "Read-only images are never modified",
 "No sequence of operations on an image opened read-only changes a byte of it; every attempt to modify it is reported as an error at the latest when flushed, leaves the reported listing, contents and free space as they were, and all reading works exactly as on a writable open. A read-only open also works on a file the process may not write.",
 ["histories", "inputs", "configurations"],
 "all operation sequences, including modification attempts, on read-only opens of every image type",
 "No test opens an image read-only.",
 ["src/disk/image.rs", "src/disk/block.rs", "src/disk/mod.rs", "src/disk/file.rs"],
 [("check_writability, ReadOnlyMap", "src/disk/image.rs, src/disk/block.rs"), ("no in-memory change before the first failing write", "src/disk/mod.rs create_file, src/disk/file.rs delete")],
 None, ["file bytes", "Disk::blocks_free", "results of all operations"])

prop("C10", "Damaged images never cause a panic or an endless loop",
 "Whatever bytes an image of a supported size contains, and even if stored bytes change at any moment while handles are open, every operation on the disk, its files, readers and writers returns a result or an error after a number of sector accesses bounded by the size of the disk; it never panics and never loops forever.",
 ["inputs", "fault_sequences", "histories"],
 "all corruptions of all structures (links, directory entries, free map, side sectors, index and info blocks, header), injected before opening or between any two operations",
 "Tests contain no damaged image at all.",
 ["src/disk/chain.rs", "src/disk/directory.rs", "src/disk/file.rs", "src/disk/geos/file.rs", "src/disk/geos/reader.rs", "src/disk/bam.rs", "src/disk/format.rs", "src/disk/validation.rs"],
 [("loop detection", "src/disk/chain.rs"), ("location range checks", "src/disk/block.rs, src/disk/bam.rs"), ("structure checks of relative and VLIR files", "src/disk/file.rs, src/disk/geos/file.rs")],
 None, ["panics", "number of sector accesses per operation"], HOOK)

prop("C11", "Validation reports exactly the inconsistencies present",
 "Validating a disk whose directory can be scanned reports a problem for every sector that is allocated but owned by nobody, every sector owned by a file or the directory but marked free, every system sector marked free, every sector claimed more than once and every file whose structure cannot be scanned, and reports nothing else; the files it names are owners of the sectors concerned, and a consistent disk yields no report. Validation itself changes nothing.",
 ["fault_sequences", "inputs", "histories"],
 "all disks reachable by any history followed by any damage: flipped free-map bits, redirected links, lost or stale sector writes, killed processes",
 "Tests only validate healthy disks and assert that the list is empty.",
 ["src/disk/validation.rs", "src/disk/file.rs", "src/disk/geos/file.rs", "src/disk/format.rs"],
 [("validate: owner map, set differences", "src/disk/validation.rs"), ("occupied_sectors", "src/disk/file.rs, src/disk/geos/file.rs"), ("system_locations", "src/disk/format.rs")],
 None, ["Disk::validate", "raw image bytes"])

prop("C12", "Relative and GEOS files keep their records amid other activity",
 "For every relative, GEOS sequential and GEOS record file on a disk, the record count, every record's bytes, the info block and the list of occupied sectors match what is stored, through any history of other files being created, written, renamed and deleted around it and of renames of the file itself. Out-of-range records are refused, unavailable records read as empty, and such files refuse writers.",
 ["histories", "inputs", "schedules"],
 "all record lengths, record counts, side-sector counts, record layouts (spanning sectors), VLIR index layouts and all surrounding histories",
 "Tests contain no relative or GEOS file.",
 ["src/disk/file.rs", "src/disk/geos/file.rs", "src/disk/geos/mod.rs", "src/disk/directory.rs"],
 [("RelativeFile::new, record_position", "src/disk/file.rs"), ("GEOSFile::new, record_start, info", "src/disk/geos/file.rs"), ("entry extra bytes preserved", "src/disk/directory.rs")],
 None, ["FileOps::record_count/record/occupied_sectors", "File::geos_info"])

prop("C13", "GEOS export stream is exact and independent of read sizes",
 "Exporting a GEOS file as a Convert stream yields, for every sequence of read sizes and whatever other operations run between the reads, the same bytes: the directory entry block with its signature, the info block, for record files the index block converted to block counts, and then the data, records padded to whole blocks except the last. The stream ends, and stays ended, after exactly those bytes. A file with a record too long for the stream's one-byte block count is refused with an error instead of being exported wrongly.",
 ["schedules", "inputs", "histories"],
 "all read-size sequences (including one byte and exact fits), all GEOS file shapes, interleaved with creation, deletion, renaming and writing of other files",
 "No test exports a GEOS file.",
 ["src/disk/geos/reader.rs", "src/disk/geos/file.rs"],
 [("GEOSReader state machine and buffer draining", "src/disk/geos/reader.rs")],
 [("state and buffer", "position within the stream between reads", "src/disk/geos/reader.rs GEOSReader")], ["GEOSFile::reader"])

prop("C14", "The directory lists exactly the live files",
 "At every point of any history the listing contains exactly the files created (or initially present) and not deleted, each once, under its latest name, with the type, flags and metadata it was given, in slot order; freed slots are reused before the directory grows, growth continues up to the format's maximum number of entries, and no two listed files created or renamed through the library share a name. Looking a file up by name finds exactly the listed file of that name, an entry written back with other flags or another type is listed that way, and a listing that is under way while files are created, renamed or deleted shows every file that is there all the time, once, and nothing that never was there.",
 ["histories", "schedules", "configurations"],
 "all histories of create, rename, delete (also with writers open on the files concerned) including directories that grow and fill up, on every image type",
 "Tests fill a directory once, through an internal function, and never delete, rename with writers open, or compare listings.",
 ["src/disk/directory.rs", "src/disk/mod.rs", "src/disk/chain.rs"],
 [("DirectoryIterator, next_free_directory_entry", "src/disk/directory.rs"), ("rename, create_file, check_filename_availability", "src/disk/mod.rs"), ("re-reading the entry before updating its size", "src/disk/chain.rs increment_entry_blocks")],
 None, ["Disk::directory, Disk::iter, Disk::find_directory_entry"])

prop("C15", "Formatting yields a fresh, consistent, durable disk",
 "Formatting any image of a supported size, whatever it contained before, yields a disk with the given name and id, the header fields and padding the drive's format prescribes, an empty directory, every data sector free, nothing left of earlier contents, no validation errors and the drive's true capacity, number of directory entries and list of sectors reported for it, and once it returns this state survives a power loss. Creating an image file yields a blank image of the exact size, refuses to touch an existing file when a new one is required, and replaces an existing file otherwise.",
 ["histories", "crash_points", "inputs", "configurations"],
 "all prior contents (formatted, GEOS, damaged, full), all names and ids, all geometries, at any point of any history without open writers",
 "Tests only format zeroed in-memory images and check the free-block total.",
 ["src/disk/mod.rs", "src/disk/header.rs", "src/disk/bam.rs", "src/disk/image.rs"],
 [("write_format", "src/disk/mod.rs"), ("Header::write, Bam::new", "src/disk/header.rs, src/disk/bam.rs"), ("Image::create", "src/disk/image.rs")],
 None, ["raw image bytes", "durable bytes", "Disk::validate"], HOOK)

prop("C16", "Sector placement follows the drive's allocation order",
 "Every sector a history allocates is the one the drive's rule selects for the free map at that moment: on CBM disks file data goes to the lowest free sector of the nearest track to the directory track with free space, lower side first; on GEOS disks the search starts at the first track and uses the GEOS skew; directory sectors continue on the directory track with the directory interleave. Asked for the sector that follows any given one, the free map likewise answers with the drive's choice. File data is never placed on the directory track or a reserved track.",
 ["histories", "schedules", "configurations"],
 "all free maps reachable through any interleaving of creations, appends and deletions on every image type, CBM or GEOS formatted",
 "Tests compare the allocation order only for an otherwise empty disk filled by one sequence.",
 ["src/disk/format.rs", "src/disk/bam.rs", "src/disk/chain.rs", "src/disk/directory.rs"],
 [("first_free_block, next_free_block_from_previous, next_free_track_*", "src/disk/format.rs")],
 [("free map at the moment of allocation", "input of the placement rule", "src/disk/bam.rs")], ["raw image bytes after each operation"])

prop("C17", "Command-line sessions behave like one coherent disk",
 "Any sequence of cdisk commands (create, format, write, append, read, geosread, rename, delete, dir, dump, validate, bam), each run as its own process on the same image file, leaves the image and produces the output that one disk performing those operations would: files read out equal what was written and appended, listings (with the sectors, records and dates of verbose ones), free counts and dumps match, deleted space is reusable, and the image validates. Commands that only read leave the image file unchanged and also work on an image file they may not write. A command that is refused (unknown or taken name, missing source, wrong kind of file, a sector not on the disk, an image that may not be written) says so without crashing and leaves the image and any existing destination file as they were. A command killed or meeting an I/O error midway leaves every other file as it was and the image usable by the next command.",
 ["histories", "inputs", "configurations"],
 "all command sequences over all image types, with file sizes from empty to disk full",
 "No test runs the program.",
 ["src/bin/cdisk.rs", "src/disk/mod.rs"],
 [("cmd_* functions opening, operating and flushing per process", "src/bin/cdisk.rs")],
 None, ["cdisk stdout, image file bytes, extracted files"])

prop("C18", "Operations touch only the bytes they own",
 "Creating, writing, renaming or deleting a file changes nothing on the image except that file's own sectors, sectors that were free, the free map, its own directory entry and, when the directory grows, the link of the last directory sector; other files' sectors and entries, the disk name and other header fields, unused slots, the error table and sectors beyond the standard tracks keep their bytes. Writing back a directory entry changes only that entry, writing a raw sector changes exactly that sector, and changing the disk name or id changes only those fields of the header and their padding.",
 ["histories", "schedules", "configurations"],
 "every single operation of any history with any handles open, on every geometry with and without error table or extra tracks",
 "Tests never compare whole images before and after an operation.",
 ["src/disk/bam.rs", "src/disk/directory.rs", "src/disk/header.rs", "src/disk/block.rs", "src/disk/chain.rs"],
 [("read-modify-write of BAM and header sectors", "src/disk/bam.rs BamWriter::write, src/disk/header.rs"), ("positioned entry writes preserving the link bytes", "src/disk/directory.rs to_bytes"), ("track layouts", "src/disk/d64.rs, src/disk/d71.rs, src/disk/d81.rs")],
 None, ["raw image bytes before and after each operation"])

prop("C19", "PETSCII and Unicode text conversion is consistent",
 "Converting text to PETSCII and back preserves every character the mapping supports, unsupported characters become the documented placeholder, and conversion never fails.",
 ["inputs"], "all strings and all byte strings",
 "Tests convert a few strings.",
 ["src/petscii.rs"], [("PETSCII_TO_CHAR_MAP, from_str_lossy, Display", "src/petscii.rs")])

prop("C20", "Icons and info blocks render and re-encode faithfully",
 "Rendering a sprite or icon reflects every pixel of its bitmap, and re-encoding a parsed info block or directory metadata reproduces the bytes it was parsed from.",
 ["inputs"], "all bitmaps, info blocks and directory metadata bytes",
 "Tests cover no rendering and only four directory entries.",
 ["src/sprite.rs", "src/disk/geos/mod.rs", "src/disk/directory.rs"], [("Sprite Display, GEOSInfo::to_bytes, Extra::to_bytes", "src/sprite.rs, src/disk/geos/mod.rs, src/disk/directory.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
