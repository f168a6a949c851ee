#!/usr/bin/env python3
# Generates properties.jsonl from the table below (kept in one place so that ids stay stable).
import json, sys
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

p("I01", "Every extent of a built image is in bounds, disjoint and the right size",
  "For any set of files added to a volume, of any sizes including empty, sector-sized and larger than 4 GiB, the built image gives every directory, continuation area and file part its own sector-aligned region: no two regions overlap, none lies outside the declared volume size, and the parts of a file are consecutive and add up to exactly the file's size. The volume's declared size equals the metadata it writes plus the sectors of all files, and the metadata's length and positions match the addresses recorded in it.",
  ["inputs"], "all tuples of file sizes in [0, 2^40) for bounded trees (empty, 1..3 files, nested directories)",
  "The volume tests build one fixed tree of tiny files; multi-part files, zero-length files next to large ones and sector boundaries are never sampled.",
  ["pkg/iso9660/volume.go", "pkg/iso9660/inode.go", "pkg/iso9660/directoryinode.go", "pkg/iso9660/sectorallocator.go", "pkg/iso9660/fileinode.go"],
  [("sector allocation", "pkg/iso9660/volume.go:assignLogicalBlockAddresses"), ("splitting into parts", "pkg/iso9660/inode.go:InodeParts"), ("layout written", "pkg/iso9660/volume.go:WriteMetadataTo")])
p("I02", "A written image reads back as exactly the tree that was added",
  "After building a volume from any accepted sequence of files and symlinks and writing it, walking the image finds every added entry under its full path with its type, size, permissions and (for files) its content position and content, and for symlinks the target as cleaned; it finds no other entries, and each entry is found once. Looking an entry up by path gives the same answer as listing its parent.",
  ["inputs", "histories"], "bounded trees with symbolic entry names, sizes and content; up to 3 levels and several siblings, including multi-part files",
  "The walker test reads one fixed tree; it does not quantify over names, sizes, order of addition or depth.",
  ["pkg/iso9660/volume.go", "pkg/iso9660/walk.go", "pkg/iso9660/directoryinode.go", "pkg/iso9660/fileinfo.go", "pkg/iso9660/file.go"],
  [("writer", "pkg/iso9660/volume.go:WriteTo"), ("reader", "pkg/iso9660/walk.go:Walker"), ("listing from an open directory", "pkg/iso9660/file.go:ReadDir")])
p("I03", "Directory records decode to what was encoded, for every field value",
  "Encoding a directory record and decoding the bytes gives back the same identifier, start, length, flags, interleave fields, volume id, recording time (to its format's resolution) and system-use entries, for all values of those fields; the encoded size equals the size the record reports and the length byte it carries.",
  ["inputs"], "all 8/16/32-bit field values, identifiers of 1..18 bytes of either parity, every kind of system-use entry",
  "The record test encodes one record with one set of values.",
  ["pkg/iso9660/directoryrecord.go", "pkg/iso9660/ioutil.go", "pkg/iso9660/rrip/px.go", "pkg/iso9660/rrip/tf.go", "pkg/iso9660/susp/ce.go", "pkg/iso9660/susp/er.go", "pkg/iso9660/susp/sp.go"],
  [("encode", "pkg/iso9660/directoryrecord.go:WriteTo"), ("decode", "pkg/iso9660/directoryrecord.go:DecodeDirectoryRecord")])
p("I04", "Directory records never straddle a sector and all are found in order",
  "Writing a directory never splits a record across a 2048-byte sector, its reported size is a whole number of sectors equal to the bytes written, and iterating over the written bytes yields exactly the records written, in order. Iterating from the position after any entry (as a resumed listing does) yields exactly the remaining entries, and an entry's reported length leads to the next entry's position.",
  ["inputs", "histories"], "record lengths chosen symbolically so that runs end before, at and after sector boundaries; every resume position",
  "Tests write one small directory that fits one sector; boundary fits depend on exact length sums.",
  ["pkg/iso9660/directory.go", "pkg/iso9660/walk.go", "pkg/isofuse/dir.go"],
  [("sector padding", "pkg/iso9660/directory.go:WriteTo"), ("record iterator", "pkg/iso9660/walk.go:DirectoryRecordIterator"), ("entry iterator", "pkg/iso9660/walk.go:ReadDirIterator")])
p("I05", "Names and symlink targets survive encoding at every length",
  "For every valid name and every symlink target, of any length and component structure, the entry read back from the image carries the same name and the same (path-cleaned) target, however the text has to be split over name parts, link components, and chained continuation areas. Neighbouring entries keep their own names.",
  ["inputs"], "names of 1..~600 bytes and targets of up to several components including '.', '..', '/' and components over 248 bytes, with symbolic characters; continuation areas in every fill state reached by the bounded siblings",
  "Tests cover a handful of lengths for single components; the split points depend on exact residual room.",
  ["pkg/iso9660/rrip/nm.go", "pkg/iso9660/rrip/sl.go", "pkg/iso9660/continuation.go", "pkg/iso9660/directoryinode.go", "pkg/iso9660/walk.go"],
  [("name parts", "pkg/iso9660/rrip/nm.go:NewName"), ("link components", "pkg/iso9660/rrip/sl.go:NewSymlink/DecodeSymlink"), ("continuation areas", "pkg/iso9660/continuation.go:Append")])
p("I06", "Timestamps round trip for every representable instant",
  "Every instant from 1900 to 2155 with one-second resolution, in any time zone, written as an entry date and every instant of years 0..9999 written as a decimal date, decodes to the same instant; encoded fields are within their calendar ranges.",
  ["inputs"], "all year/month/day/hour/minute/second combinations; zone offsets as a symbolic shift",
  "Tests check a fixed instant or none; leap days and year limits are not sampled.",
  ["pkg/iso9660/datetime/datetime.go", "pkg/iso9660/rrip/tf.go"],
  [("entry date", "pkg/iso9660/datetime/datetime.go:EntryDateTime"), ("decimal date", "pkg/iso9660/datetime/datetime.go:DecDateTime")])
p("I07", "The volume descriptor is one sector and decodes to what was encoded",
  "For all identifier strings and numeric fields, the written primary volume descriptor is exactly one 2048-byte sector whose identifier fields contain only the permitted characters, padded or cut to their fixed widths, and decoding it gives back the same sizes, table addresses, root extent and identifiers (after that normalisation). A descriptor whose little- and big-endian copies of a number disagree is rejected.",
  ["inputs"], "all 16/32-bit numbers; identifier strings with symbolic characters below, at and above field width, including multi-byte characters",
  "One fixed descriptor is compared byte for byte with a stored file.",
  ["pkg/iso9660/pvd.go", "pkg/iso9660/stra.go", "pkg/iso9660/strd.go", "pkg/iso9660/ioutil.go"],
  [("encode/decode", "pkg/iso9660/pvd.go"), ("character sets", "pkg/iso9660/stra.go, strd.go"), ("both-endian numbers", "pkg/iso9660/ioutil.go")])
p("I08", "Invalid additions are refused and leave the tree as it was",
  "Adding an entry whose name has a character outside the volume's permitted set, an empty or reserved name, a path that already exists, or a path that goes through a non-directory fails with an error, and every entry added before remains reachable and unchanged. Every other addition succeeds, and the accepted entry is then found.",
  ["inputs", "histories"], "all byte strings up to a bounded length for both name policies; histories of up to 3 additions over symbolic paths",
  "Tests try a few names; the policy is a predicate on all runes and the collision rules on histories.",
  ["pkg/iso9660/volume.go", "pkg/iso9660/directoryinode.go", "pkg/iso9660/namevalidator.go"],
  [("additions", "pkg/iso9660/volume.go:addLeaf"), ("collision and name checks", "pkg/iso9660/directoryinode.go:AddChild"), ("policies", "pkg/iso9660/namevalidator.go")])
p("I09", "Identifiers and inode numbers never repeat",
  "Within a directory every entry gets a distinct identifier of legal characters and length, whatever the number of entries, and within a volume every inode gets a distinct number starting at 1 for the root; when numbers run out the addition fails rather than reusing one.",
  ["inputs", "histories"], "any two positions i != j in [0, 2^64) of an allocator's history (one inductive step from an arbitrary counter state)",
  "Tests allocate a few; distinctness is a statement about all pairs of a long history.",
  ["pkg/iso9660/identifier.go", "pkg/iso9660/inode.go", "pkg/iso9660/directoryinode.go"],
  [("identifiers", "pkg/iso9660/identifier.go:Next"), ("inode numbers", "pkg/iso9660/inode.go:inodeAllocator")])
p("I10", "Path lookup does not depend on earlier lookups",
  "The answer to opening, stat-ing, link-stat-ing or listing a path in an image depends only on the image and the path: a walker that has already answered other queries gives the same result and the same error as a fresh one. Looking below a non-directory fails, and symbolic links resolve relative to the directory that holds them, with absolute targets starting at the image root.",
  ["histories", "inputs"], "all pairs of lookups over a bounded tree with files, directories and symlinks; paths built from symbolic components including '.', '..' and repeated separators",
  "Tests do one lookup per walker, so the lookup cache is always cold.",
  ["pkg/iso9660/walk.go"], [("lookup and its cache", "pkg/iso9660/walk.go:lstat/stat")])
p("I11", "Faults while reading or writing an image surface as errors, without hangs",
  "If reading the underlying image fails or is cut short at any read, the operation in progress returns an error rather than a shortened listing, wrong metadata, a hang or a panic; entries delivered before the fault are correct. An error returned by a walk callback stops the walk and is returned. A failing writer makes writing an image's metadata fail, with the bytes written so far counted correctly.",
  ["fault_sequences"], "a fault injected at any one of the reads of an operation over bounded images; an error from any one callback invocation",
  "Tests never inject read faults.",
  ["pkg/iso9660/walk.go", "pkg/iso9660/directoryrecord.go", "pkg/iso9660/ioutil.go"],
  [("record iterator", "pkg/iso9660/walk.go:DirectoryRecordIterator.Next"), ("walk", "pkg/iso9660/walk.go:Walk")])
p("I12", "Both path tables list every directory with its parent and address",
  "The little-endian and big-endian path tables of an image have the declared length, contain one record per directory with the directory's own address, parents before children with each record's parent number referring to its parent's record (counting consistently from the root), and carry identical information.",
  ["inputs"], "bounded directory trees of every shape up to 4 directories, with symbolic block addresses",
  "Tests compare one fixed image.",
  ["pkg/iso9660/pathtable.go", "pkg/iso9660/directoryinode.go", "pkg/iso9660/volume.go"],
  [("table", "pkg/iso9660/directoryinode.go:ToPathTable"), ("encoding", "pkg/iso9660/pathtable.go:Encode")])
p("I13", "Images beyond 4 GiB are read at the right positions",
  "Directories, continuation areas and files at any 32-bit block address are read from byte offset address x 2048, with no wrap-around, by listing, lookup and open.",
  ["inputs"], "all 32-bit block addresses for directory extents, continuation areas and files",
  "Tests only use images of a few kilobytes.",
  ["pkg/iso9660/walk.go", "pkg/iso9660/file.go", "pkg/isofuse/dir.go"],
  [("offset computation", "pkg/iso9660/walk.go, pkg/iso9660/file.go")])

p("V01", "A vdisc serves, for every file, that file's bytes at its image position",
  "Loading a vdisc built from any set of files gives an image whose bytes at each file's recorded address are the file's content followed by zero padding to the next sector, for any read offset and length, whose metadata region is the written metadata, and whose total size is the declared number of sectors. Asking for the extent or URL at a file's address gives that file's object and exactly the URL it was added with (if that is absolute, or a rooted path of a vdisc that is itself at a path); asking at any other address is an error.",
  ["inputs", "configurations"], "bounded sets of files with symbolic sizes, content and URLs (including two entries with the same URL), with and without caching, all read ranges",
  "There are no tests of the vdisc package at all.",
  ["pkg/vdisc/builder.go", "pkg/vdisc/loader.go", "pkg/vdisc/extent.go", "pkg/vdisc/trie.go"],
  [("build", "pkg/vdisc/builder.go:Build"), ("load", "pkg/vdisc/loader.go:Load"), ("extent URL", "pkg/vdisc/extent.go:URL")])
p("V02", "The URL trie returns every stored URL and value, and nothing else",
  "After storing any sequence of URLs, looking one up gives the value most recently stored for it and any other string is absent; inverting the trie yields, for each stored URL, a leaf whose chain of parents spells exactly that URL.",
  ["inputs", "histories"], "all sequences of up to 3-4 valid-UTF-8 keys of bounded length, in every prefix/extension relation",
  "There are no tests of the trie; node splitting depends on prefix relations among keys.",
  ["pkg/vdisc/trie.go"], [("insert", "pkg/vdisc/trie.go:Put"), ("lookup", "pkg/vdisc/trie.go:Get"), ("invert", "pkg/vdisc/trie.go:Invert")])

p("V03", "Failures while building or loading a vdisc are reported and leave nothing behind",
  "If any storage operation fails while a vdisc is built, the build reports an error, leaves nothing being written and publishes no vdisc, and a published vdisc's metadata is published before it. If any operation fails while a vdisc is loaded, or the descriptor is truncated or starts with a damaged header, loading reports an error without a panic; whether it succeeds or fails, the descriptor is closed and no temporary file remains.",
  ["fault_sequences", "inputs"], "any one of the storage and file-system operations of building and loading; descriptors of up to 16 arbitrary bytes",
  "There are no tests of the vdisc package at all.",
  ["pkg/vdisc/builder.go", "pkg/vdisc/loader.go"], [("build", "pkg/vdisc/builder.go:Build"), ("load", "pkg/vdisc/loader.go:Load/downloadMemoryMapped")])

p("V04", "The burn and copy commands do what their arguments say",
  "Burning a table of files makes a vdisc that holds exactly the files of the table under their paths, each with its URL and size, however the table is quoted and its lines end, and whose volume carries the labels given; a table with a line that cannot be burned is refused and makes no vdisc. Copying a file out of a vdisc succeeds only if the output holds exactly the bytes of that file (or of the file a link names), replacing what was there; a failure to read the file, or to write or close the output, is reported.",
  ["inputs", "configurations", "fault_sequences"], "bounded tables with symbolic names, URLs and sizes, symbolic labels, files of symbolic size, any one failing operation of a copy",
  "There are no tests of the commands.",
  ["pkg/vdisc/cli/burn.go", "pkg/vdisc/cli/cp.go"], [("burn", "pkg/vdisc/cli/burn.go:Run"), ("copy", "pkg/vdisc/cli/cp.go:Run")])

p("S01", "A concatenation reads as its parts laid end to end",
  "For any list of parts (including empty ones), any offset and any length, reading the concatenation - sequentially or concurrently - returns exactly the corresponding bytes of the parts in order; only the part of the buffer reported as read is claimed valid, a part's read error or short read is reported, never papered over, and the count never includes bytes beyond a failed part. Sequential reads and seeks see the same byte stream.",
  ["inputs", "schedules", "fault_sequences"], "up to 4 parts with symbolic sizes and content, all offsets and lengths in range, every schedule of the concurrent readers, one failing or short part",
  "The concat tests use fixed parts and a few offsets with no faults.",
  ["pkg/storage/concat.go", "pkg/interval/interval.go"], [("read", "pkg/storage/concat.go:ReadAt"), ("overlap", "pkg/interval/interval.go:Intersection")])
p("S02", "Object views read and seek like the byte ranges they stand for",
  "Slices, renamed objects, zero objects, data URLs and in-memory objects return, for every offset, length and seek sequence, exactly the bytes of the range they represent, never bytes outside it, report their exact size, and signal end of data only at the end.",
  ["inputs", "histories"], "all offsets, lengths, whence values; sequences of 3 reads/seeks; symbolic content",
  "No tests exist for slices, zero or data objects.",
  ["pkg/storage/storage.go", "pkg/storage/zero", "pkg/storage/data", "pkg/storage/ram"], [("slice", "pkg/storage/storage.go:slice"), ("zero", "pkg/storage/zero/object.go"), ("data", "pkg/storage/data")])
p("S03", "The in-memory store behaves like a directory tree of objects",
  "After any sequence of committed and aborted writes, removals and lookups, an object opens with the bytes last committed under its path, nothing else is visible, aborted or uncommitted writes have no effect, an open reader is not disturbed by later commits or by the writer's buffer, listings agree with lookups, and conflicting operations fail without changing the tree. Operations that run at once behave as if they ran one after the other.",
  ["histories", "inputs", "schedules"], "histories of up to 4 operations over symbolic paths from a small path alphabet and symbolic content",
  "The ram tests follow one scenario.",
  ["pkg/storage/ram/ram.go", "pkg/storage/ram/inode.go", "pkg/storage/ram/writer.go"], [("driver", "pkg/storage/ram/ram.go")])
p("S04", "Committing a file object is atomic: old bytes or all new bytes",
  "Whatever file-system call fails and wherever the process stops during create, write, set-attribute, commit or abort, the destination path holds either what it held before or the complete committed bytes and attributes; a commit that reports success has made the data durable before making it visible, a failed or aborted write leaves the destination untouched, no temporary file is left by an abort, and no operation leaves a file open.",
  ["crash_points", "fault_sequences", "histories"], "every call of the file-system interface as a fault or crash point; writes with symbolic content and sizes; symbolic pre-existing destination",
  "No tests of the file driver; crash points cannot be reached from unit tests.",
  ["pkg/storage/file/file.go", "pkg/storage/file/writer.go"], [("create", "pkg/storage/file/file.go:Create"), ("commit/abort", "pkg/storage/file/writer.go")])
p("S07", "File locks exclude each other across processes until released",
  "While an exclusive lock on a path is held no other lock on that path is granted, shared locks on a path are granted together, locks on different paths do not affect each other, and a waiting lock is granted after the release; a failure while taking or releasing a lock is reported and leaves no lock held and no file open.",
  ["schedules", "fault_sequences"], "two or three holders on one or two paths, all interleavings at synchronisation operations up to a preemption bound, any failing call",
  "No tests of the file locks exist.",
  ["pkg/storage/file/lock.go"], [("lock", "pkg/storage/file/lock.go:lock")])
p("S05", "Each URL is served by the driver of its scheme",
  "A URL is dispatched to the driver registered for its scheme, with plain paths going to the file driver; an unregistered scheme or malformed URL is an error, an operation a driver does not support is an error, registering a scheme twice is refused, and clearing the registry can be undone exactly. The registry can be used from several threads at once.",
  ["inputs", "histories", "schedules"], "all URL strings up to a bounded length over a symbolic alphabet; histories of register/clear/undo",
  "Registry tests are absent; only fixed URLs appear elsewhere.",
  ["pkg/storage/driver/registry.go", "pkg/storage/storage.go"], [("dispatch", "pkg/storage/driver/registry.go:Find"), ("operations", "pkg/storage/storage.go")])
p("S06", "A visit reaches every entry exactly once and reports every failure",
  "Visiting a tree calls the visitor exactly once for every file and directory below the root (minus subtrees it declines), with the entry's own path and parents before children, whatever the number of workers and their interleaving; if a listing or a callback fails the visit returns an error, and it always terminates without leaving workers behind.",
  ["schedules", "fault_sequences", "inputs"], "bounded trees, 1..3 workers, all interleavings at channel/lock operations up to a preemption bound, any one failing listing or callback",
  "Existing tests run one tree under whatever schedule the runtime picks.",
  ["pkg/storage/driver/visitor.go"], [("visit", "pkg/storage/driver/visitor.go:Visit")])

p("C01", "Cached reads equal direct reads",
  "Reading an object through the cache returns, for every offset and length, the same bytes and end-of-data behaviour as reading the object directly, whatever the block size and whatever has been read before; sequential reads and seeks behave the same way, and no read of the source reaches beyond the object.",
  ["inputs", "histories", "configurations"], "objects up to several blocks, all offsets/lengths, symbolic content, block sizes and pool sizes, histories of up to 3 reads, with and without read-ahead",
  "Tests use fixed sizes and mocks.",
  ["pkg/caching/cache.go", "pkg/caching/mem.go", "pkg/storage/concat.go"], [("read-through", "pkg/caching/cache.go:ReadAt"), ("memory slices", "pkg/caching/mem.go")])
p("C02", "The memory cache never serves one block's bytes for another",
  "Under any interleaving of readers and read-ahead, any sequence of evictions and any sequence of source errors, a read through the memory cache returns the right bytes of the requested object range or the source's error; an error is not remembered, so a later read after the source recovers succeeds, and objects with different URLs never share data.",
  ["schedules", "fault_sequences", "histories"], "pools of 1..2 blocks, 2 concurrent readers plus read-ahead, any source read failing, all interleavings at lock operations up to a preemption bound",
  "The memory cache test is single-threaded with a source that never fails.",
  ["pkg/caching/mem.go"], [("pool", "pkg/caching/mem.go:memPool.Get"), ("buffer", "pkg/caching/mem.go:memBuf")])
p("C03", "The disk cache serves only the right bytes, whatever fails around it",
  "A read through the disk cache returns the right bytes of the requested range or an error from the source or lock, whatever cache-file operation fails or is interrupted by a crash, whatever incomplete or foreign files the cache directory holds, and whoever fills the same block concurrently; a cache entry becomes visible only complete, with its key and checksum, and integrity checking accepts exactly the entries whose content matches.",
  ["crash_points", "fault_sequences", "histories", "schedules"], "every storage operation as a fault or crash point, pre-existing entries with symbolic key/content, two slices competing for one block",
  "The disk test needs a real file system with xattrs and covers the fault-free path.",
  ["pkg/caching/disk.go", "pkg/storage/file"], [("read", "pkg/caching/disk.go:ReadAt"), ("fill", "pkg/caching/disk.go:fill"), ("integrity", "pkg/caching/disk.go:CheckIntegrity")])
p("C04", "Read-ahead stays inside the object, the window and its token budget",
  "For every sequence of reads, read-ahead only requests whole blocks that exist in the object and lie after the block in which the current read starts, within the configured window, requests no block twice in one sequential run, never has more fetches in flight than there are tokens, returns every token it takes, and never blocks or fails the read that triggered it.",
  ["histories", "inputs", "schedules"], "histories of up to 3 reads with symbolic offsets and lengths over symbolic object size, block size, window and token count",
  "Tests follow fixed read patterns with mocks.",
  ["pkg/caching/readahead.go"], [("controller", "pkg/caching/readahead.go:Update")])
p("C05", "Cache garbage collection removes only finished cache entries",
  "Garbage collection removes entries only while the threshold says space is needed (for a goal in bytes: while less than that is available), considers every finished entry before giving up, never touches lock files, files being written, or anything outside the cache's own directories, and stops on errors.",
  ["inputs", "histories", "configurations"], "bounded cache directories with symbolic names and kinds of entries, symbolic threshold answers, any shuffle order",
  "The only GC test uses one populated directory.",
  ["pkg/caching/disk.go"], [("collection", "pkg/caching/disk.go:Gc"), ("victims", "pkg/caching/disk.go:diskIter")])

p("H01", "An HTTP read returns the requested range or an error, never other bytes",
  "For every offset and length and every server response, a read of an HTTP object either returns exactly the requested bytes (cut at the object's size) or an error: wrong status, wrong or missing content range, wrong length, truncated body and transport failures are all reported, the request sent asks for exactly the needed range, and a read at or past the end returns end of data without a request.",
  ["inputs", "fault_sequences"], "all response statuses, content-range values, content lengths and body lengths; all offsets and lengths; known and discovered object sizes",
  "There are no tests of HTTP objects.",
  ["pkg/storage/http/object.go", "pkg/storage/http/finfo.go", "pkg/httputil/range.go"], [("read", "pkg/storage/http/object.go:ReadAt"), ("size discovery", "pkg/storage/http")])
p("H02", "Only well-formed content ranges are accepted, with their exact numbers",
  "A Content-Range header is accepted exactly when it has the form 'bytes first-last/total' with decimal numbers, and then yields those numbers; every other header is an error and none causes a crash or a silently wrong number, including overflowing numbers.",
  ["inputs"], "all header strings up to a bounded length",
  "No test covers the parser.",
  ["pkg/httputil"], [("parser", "pkg/httputil:GetContentRange")])
p("H03", "Retries stop at the first good answer and are bounded",
  "A request is repeated only after a transport error, a 5xx or a 429 answer, after a wait of about the configured interval and only until the configured total time is over. The caller gets the first acceptable answer or the last failure, never a response whose body has been closed, and answers that are not returned are released. Every attempt carries the caller's whole request body; a body that can be read only once is sent once.",
  ["fault_sequences"], "all sequences of outcomes (error or any status 100..599) up to the retry limit",
  "Tests cannot enumerate outcome sequences; none exist for retries.",
  ["pkg/httputil/retry.go"], [("retry", "pkg/httputil/retry.go:RoundTrip")])
p("H04", "Round-robin hosts: every request goes to a resolved address, evictions are safe",
  "Requests for a host go to that host's own resolved addresses in rotation, IPv4 or IPv6, keeping scheme, port and host. A failed lookup is reported, or the addresses found before stay in use, and the host is looked up again later. Any sequence of requests to more hosts than are kept works, without a crash, deadlock or leftover activity for hosts that are no longer kept.",
  ["histories", "fault_sequences", "inputs"], "histories of up to 4 requests over symbolic hosts and address sets with a host cache of 1..2, lookups failing at any point",
  "The round-robin tests use one or two hosts and never overflow the host cache.",
  ["pkg/httputil/rr.go"], [("transport", "pkg/httputil/rr.go")])

p("B01", "The block-device command pool handles each command once, under any schedule",
  "Every command submitted to a block device of the pool is handled exactly once by that device's handler and answered on that device, commands that run at once never share a buffer, and no more run at once than the pool has workers. When a device's input ends, its output ends after all its answers; closing the pool, at any time, ends all workers and loses no answer of a command that was handled.",
  ["schedules"], "pools of 1..2 workers, up to 2 devices and 3 commands, all interleavings at channel/lock operations up to a preemption bound",
  "Tests run under whatever schedule the runtime picks.",
  ["pkg/blockdev/cmdpool.go"], [("pool", "pkg/blockdev/cmdpool.go")])
p("B02", "Block-device reads give the bytes of the image",
  "A read command on the block device, of any address and length, gives exactly the image's bytes at that address or is refused (outside the image, or when reading the image fails), the reported capacity is that of the image, and commands that would write are refused and change nothing.",
  ["inputs", "fault_sequences"], "images of a few blocks, any read command, any other known command",
  "There are no tests of the command handler.",
  ["pkg/blockdev/cmd_handler.go"], [("commands", "pkg/blockdev/cmd_handler.go:HandleCommand")])
p("F01", "Directory listings through the mount can stop and resume anywhere",
  "Reading a directory through the mounted file system with any buffer size that holds an entry, resuming from any returned offset, yields every entry exactly once in a consistent order with the right name, type and inode, then an empty result; a name that is listed can be looked up and gives the same inode.",
  ["inputs", "histories"], "bounded directories with symbolic name lengths, symbolic buffer sizes per call",
  "There are no tests of the file-system server.",
  ["pkg/isofuse/dir.go"], [("listing", "pkg/isofuse/dir.go:ReadDir"), ("lookup", "pkg/isofuse/dir.go:LookUpInode")])
p("F02", "Mounted inodes stay valid exactly as long as the kernel refers to them",
  "Any sequence or interleaving of lookups, attribute reads, opens and forgets behaves as if every inode were always present: an inode that still has lookups is answered correctly, counts do not underflow, and a forgotten inode can be looked up again.",
  ["histories"], "histories of up to 5 operations over a bounded tree, with symbolic choices and forget counts",
  "There are no tests of the file-system server.",
  ["pkg/isofuse/dir.go"], [("reference counts", "pkg/isofuse/dir.go:ForgetInode")])
p("F03", "File handles read the opened file and only it",
  "Handles returned by opening files are distinct while open, reading through a handle returns the bytes of the file it was opened for at the requested offset (cut at its end), and using or releasing a handle that is not open is an error, not a crash.",
  ["histories", "inputs"], "histories of up to 5 open/read/release operations with symbolic handles, offsets and sizes",
  "There are no tests of the file-system server.",
  ["pkg/isofuse/file.go"], [("handles", "pkg/isofuse/file.go:OpenFile/ReadFile/ReleaseFileHandle")])
p("U01", "Multipart uploads assemble exactly the bytes read, in order",
  "Uploading any byte stream stores exactly those bytes: a single request for short streams, otherwise parts numbered from 1 whose concatenation in part order is the stream, completed with every part's own tag; any failed read or part makes the upload fail and aborts it instead of completing it.",
  ["inputs", "schedules", "fault_sequences"], "streams of up to several parts with symbolic lengths and content, short reads, 1..2 workers in any order, any one request failing",
  "There are no tests of the uploader.",
  ["pkg/s3util/uploader.go"], [("upload", "pkg/s3util/uploader.go")])
p("U02", "An object-store write that reports success has stored everything written",
  "For an object writer, a commit that succeeds means every byte written (or streamed in) was stored and the upload had finished; a write, upload or stream error makes the commit fail; a writer aborted before its upload finished stores nothing and cannot be committed afterwards.",
  ["histories", "fault_sequences", "schedules"], "histories of up to 4 write/stream/abort/commit operations with symbolic data and a failing upload",
  "There are no tests of object writers.",
  ["pkg/storage/s3/writer.go", "pkg/storage/swift"], [("writer", "pkg/storage/s3/writer.go")])
p("U03", "Bucket listings return every key once across pages",
  "Listing a bucket returns the keys of all pages in order, each once, whatever the page size, passing each page's own continuation markers to the next request and stopping exactly when the service says the listing is complete; errors are reported.",
  ["inputs", "histories"], "up to 3 pages with symbolic keys and markers",
  "There are no tests of listings.",
  ["pkg/s3util/listbucket.go"], [("pagination", "pkg/s3util/listbucket.go")])
p("U04", "No request is sent unsigned when signing fails",
  "A request that needs signing is sent with a signature or not at all: if credentials cannot be obtained or signing fails, the caller gets the error and nothing is sent, with or without a request body; the body that is sent is the caller's body, and the path is the caller's path in the escaped form that signatures are made of.",
  ["fault_sequences", "inputs"], "requests with and without body, credentials/signing failing at any point",
  "There are no tests of the signer.",
  ["pkg/s3util/signer.go"], [("signing transport", "pkg/s3util/signer.go")])
p("K01", "Per-call settings keep their own meaning and reach their own driver",
  "Each per-call setting placed in a context (credentials, region, timeout, authorization) is read back with the value stored for that setting and is absent if it was not stored, independent of which other settings are present and in which order they were added, across all drivers.",
  ["inputs", "histories"], "all subsets and orders of settings with symbolic values",
  "There are no tests of context settings.",
  ["pkg/storage/s3/context.go", "pkg/storage/swift/context.go", "pkg/storage/http/context.go"], [("context keys", "pkg/storage/*/context.go")])
p("U05", "A directory listing of an object store shows what is there",
  "Listing a directory of a bucket or container shows each current object and each sub-directory of it once, with its own name, size, time and version, over all pages of the answer; superseded versions and the directory's own marker are not shown. The request names the bucket and the directory asked for, and a refused request is an error, not an empty directory.",
  ["inputs", "fault_sequences"], "listings of up to 3 entries over 2 pages with symbolic names, sizes and flags, for both kinds of store",
  "There are no tests of the object store drivers.",
  ["pkg/storage/s3/s3.go", "pkg/storage/swift/swift.go", "pkg/s3util/listbucket.go"], [("directory listing of the drivers", "pkg/storage/s3/s3.go, pkg/storage/swift/swift.go")])
p("K02", "Requests reach the object that was named with the settings of the call",
  "Reading, inspecting, removing or creating an object sends requests to the host, bucket and key that its URL names, in the bucket's own region, signed with the credentials of the call if it has some and with those of the environment otherwise, and within the time limit of the call. A bucket whose region could not be found is looked up again by the next call, and calls for different buckets do not affect each other.",
  ["inputs", "histories", "schedules"], "every operation of three drivers with symbolic names, regions and credentials; sequences of calls with failing lookups; two buckets at the same time",
  "There are no tests of the object store drivers.",
  ["pkg/storage/s3/s3.go", "pkg/storage/s3/region.go", "pkg/storage/swift/swift.go", "pkg/storage/swift/creds.go", "pkg/storage/http/http.go"], [("drivers", "pkg/storage/{s3,swift,http}")])
p("X01", "Checked conversions never change a value; byte counters are exact",
  "A checked integer conversion returns the same mathematical value or panics, for every input of its type; counting readers and writers report exactly the bytes the underlying stream transferred, including on errors, and pass data and errors through unchanged.",
  ["inputs", "histories"], "all values of every source type of every conversion; sequences of 3 transfers with symbolic counts and errors",
  "No test covers conversions; the counter test samples one stream.",
  ["pkg/safecast/safecast.go", "pkg/countio"], [("conversions", "pkg/safecast/safecast.go"), ("counters", "pkg/countio")])

out = "\n".join(json.dumps(x) for x in P) + "\n"
open(sys.argv[1] if len(sys.argv) > 1 else "/verif/properties.jsonl", "w").write(out)
