#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays valid JSON)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=(),state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],hook_needed=None)))
IX='pkg/btrfs/index/index_store.go'; KF='pkg/btrfs/index/key_format.go'
REC='cmd/recon.go'; RCV='cmd/recover.go'; LS='cmd/ls.go'; MNT='cmd/mount.go'
RF='internal/rescuefs/files.go'; RN='internal/rescuefs/nodefs.go'; RS='internal/rescuefs/rescuefs.go'
ID='internal/identify/identify.go'; CO='internal/identify/collector.go'; BT='pkg/btrfs/btrfs.go'; LF='pkg/btrfs/leaf.go'

p('C01','Looking up an item returns the right version',
 'Looking up a (tree, key) at generation g returns the data stored for the newest version with generation at most g and, only if every stored version is newer, the earliest version. A key that was never stored for that tree is reported absent, whatever neighbouring trees, keys and generations exist. The answer depends only on the set of versions inserted (last write of an identical version wins), not on the order of insertion, on commits or on reopening the file.',
 ['histories','inputs'],'all insert histories over trees, keys, generations (including 0 and the maximum), every lookup generation, with and without reopen',
 'TestCreation only opens and reopens an empty index; no test inserts two versions of a key or looks anything up at an intermediate generation.',
 [IX,KF],[('find',IX),('newIndexKey ordering',KF),('InsertItem',IX)],['Index.FindItem and its typed wrappers'],[('index bucket','(owner,type,objectid,offset,generation) -> item','index_store.go')])
p('C02','Range queries return every key once, in order, at the right version',
 'Iterating the items of a tree between two keys yields each stored key in that interval exactly once, in ascending key order, each at the version a point lookup at the same generation would return, and then ends. It never yields a key outside the interval or of another tree, and never misses one because neighbouring keys have other generations or because the lower bound itself is not stored. The same holds for the directory-entry, extended-attribute, extent, chunk, device and subvolume listings built on it.',
 ['histories','inputs'],'all small multisets of (tree, key, generation) versions, all interval bounds from the key alphabet and its neighbours, all query generations',
 'No test iterates a range at all; the version-skipping cursor logic depends on which neighbours exist at which generations, a combinatorial space.',
 [IX,KF],[('lowerBound/find/findNext',IX),('Range.HasNext/Next',IX)],['Index.Range, RangeAll, Subvolumes, DirItems, XAttrItems, FileExtentItems, Chunks, DevItems'])
p('C03','Logical addresses map to the physical place their chunk says',
 'For every logical address inside a stored chunk, the reported device and physical offset are those of the first stripe of that chunk plus the distance from the chunk start, using the newest version of the chunk item. This holds for any number, order, size and spacing of chunks, for the first and last byte of each, and regardless of which addresses were mapped before. Addresses that no chunk contains, chunks without stripes and an index without chunks never crash the query.',
 ['inputs','histories'],'all sets of chunks over a boundary-rich layout alphabet, all addresses at and around chunk boundaries, all query orders',
 'TestRecoverCommand maps one address that is exactly the start of the only chunk; binary search positions, several chunks and versions are never exercised.',
 [IX],[('Physical and its stripe map',IX),('Chunks',IX)],['Index.Physical'])
p('C04','Path lookup finds exactly the entry a path names',
 'Looking up a clean absolute path returns the directory entry reached by following each component by exact name from the root directory, through subvolumes into their own tree, and reports absence if and only if some component does not exist or an inner component is not a directory. Names whose hashes collide, names up to 255 bytes and entries whose hash key does not match their name are still found. Entries of other directories or trees with equal names or numbers are never returned.',
 ['inputs'],'all small directory trees over an alphabet of names (including hash collisions), with nested subvolumes reusing inode numbers, and all paths over the alphabet',
 'No test calls path lookup; collisions and subvolume crossings need constructed names and multi-tree data.',
 [IX,LS],[('FindDirItemForPath',IX),('NameHash',IX)],['Index.FindDirItemForPath','btrfscue ls PATH'])
p('C05','Opening metadata is guarded and never damages the file',
 'Opening existing metadata for writing succeeds only if its format version, filesystem id and block size match what is requested; newer formats are always refused and older ones unless explicitly allowed; missing files, files without an index and non-metadata files are refused when opened for reading. A refused or read-only open leaves every stored item unchanged and releases the file, so that a later correct open succeeds at once. Whatever was committed is returned unchanged by every later open.',
 ['histories','configurations'],'all histories of open (all option combinations), insert, commit and close up to a depth, over files in every stored-version state',
 'TestCreation does a single create and reopen with matching options.',
 [IX],[('openIndex, checkUpdateMetadata',IX),('ensureTx, Commit, Close',IX)],['index.Open, OpenReadOnly, Metadata'])
p('C06','A crash during recon never loses committed metadata',
 'Whatever point of a metadata scan the process or machine stops at, and whichever not yet flushed writes reach the disk, the metadata file afterwards opens and holds exactly the items of some commit point of the scan that is at least as recent as the last completed commit; only a crash before the very first commit may leave a file that holds nothing, or is refused if its very first write was torn. Repeating the scan on any other such file completes it to the same content as an uninterrupted scan.',
 ['crash_points','fault_sequences'],'every prefix of the recorded write/flush history of real scans, and for each prefix every bounded subset and tearing of the unflushed writes',
 'No test interrupts a scan; crash states are only reachable by controlling the write history.',
 [REC,IX],[('batched Commit in InsertItem',IX),('final Commit in doScanFS',REC)],['the metadata file after materialising a crash state, read by dump-index'])
p('C07','A scan stores exactly the items of the filesystem\'s leaves',
 'After a successful scan the metadata contains, for every block-aligned metadata leaf with the requested filesystem id after the first superblock, each of its items with its tree, key, generation, size and data, and nothing else: no items of other filesystems, of internal nodes, of empty leaves or of unaligned blocks. This holds for any number of items and leaves, any block size, any position of the leaf including the last whole block of the image, any order and duplication of leaves, and when scans are repeated or several images are scanned into one file.',
 ['inputs','configurations','histories'],'all placements and kinds of blocks over a bounded image layout, block sizes 4 KiB to 64 KiB, item shapes up to full leaves, more than one commit batch',
 'No test runs a scan; which block is read, skipped or cut is decided by offset arithmetic over the whole image.',
 [REC,LF,IX,'pkg/btrfs/util.go','pkg/ioutil/ioutil.go'],[('doScanFS loop',REC),('Leaf.Len/Key/Item/Data',LF)],['metadata file after btrfscue recon'])
p('C08','Damaged metadata never crashes, hangs or hides the rest',
 'For any damage to metadata blocks, whatever values the damaged bytes take, scanning the image and then listing, dumping, path lookup, recovering and mounting from the result end normally, without crash, endless loop or runaway memory and output. Every leaf that is not damaged is still captured exactly, and files whose own metadata is undamaged are still listed and recovered.',
 ['inputs','fault_sequences'],'every header, item-header and item field of representative leaves set to every boundary value, every truncation and sector tear of a leaf, pairs of such faults, cyclic and self-referencing trees',
 'All tests use well-formed data; a recovery tool is run on damaged data and the damage can be anywhere.',
 [LF,BT,REC,LS,RCV,RN,IX],[('Leaf.Len clamp, Leaf.Data guard',LF),('name/data clamps',BT)],['exit status, stderr, output of recon, dump-index, ls, recover'])
p('C09','Sample offsets cover what they should and stay on the device',
 'For every device size, block size and number of samples, choosing sample offsets terminates and yields strictly ascending offsets without duplicates, each of which starts a whole block on the device. The set includes every block of the documented vicinity of each superblock copy that lies on the device, and at least the requested number of samples whenever the device has that many blocks, or every block otherwise; no block is excluded from being chosen.',
 ['inputs','configurations'],'all combinations of device sizes around every boundary (64 MiB, superblock copies, multiples of the block size), block sizes and sample counts from 0 to beyond the number of blocks',
 'TestMakeSampleOffsets checks one size, one block size and one sample count, and only passes with a fixed random seed.',
 [ID],[('MakeSampleOffsets',ID)],['identify.MakeSampleOffsets','btrfscue identify'])
p('C10','Identification counts, ranks and sizes filesystems correctly',
 'Over the sampled blocks, identification reports every filesystem id that occurs in at least the minimum number of leaf-like blocks, with its exact number of occurrences, its entropy and the leaf block size implied by those leaves, and reports no other id; all-zero and all-ones ids never appear. The list is ordered by descending count with a fixed tie-break, so that the same blocks always give the same output whatever the order in which they are seen.',
 ['inputs','configurations'],'all multisets of blocks over an alphabet of ids, levels, item counts and block sizes up to a bound, in every order, all minimum occurrences',
 'TestCollecter feeds one fixed sequence and checks the first entry.',
 [CO,ID,'pkg/coding/entropy.go'],[('CollectBlock, Entries',CO),('ShannonEntropy','pkg/coding/entropy.go')],['FSIDCollecter','btrfscue identify output'])
p('C11','Recovered files, links and directories have the right content',
 'Recovering a filesystem whose needed data is present creates exactly its directories, regular files and symbolic links, including those inside subvolumes and in subvolumes nothing refers to. Each file has the recorded size and holds at every offset the newest recorded data: inline data, the right bytes of the right extent, and zeros in holes, preallocated ranges and gaps; each link has its recorded target.',
 ['inputs'],'all files made of bounded sequences of extents (inline, regular, offset into a larger extent, hole, preallocated, gap, overlapping versions of other generations) with boundary-rich lengths and sizes, over several chunk layouts, and all small directory shapes',
 'TestRecoverCommand recovers one 12-byte file from one extent and one inline file.',
 [RCV,IX,BT],[('recoverFile, recoverSymlink, recoverDir',RCV),('Physical',IX)],['the destination directory after btrfscue recover'])
p('C12','Recovery never writes outside the destination directory',
 'Whatever names, types, links and links between directories the metadata contains, and whatever earlier entries created, recovery creates and modifies nothing outside the destination directory. In particular symbolic links recovered from the image, names with separators or dots, empty names and duplicate names never redirect later writes, and a symbolic link already present in the destination is not written through.',
 ['inputs','histories'],'all directories of up to three entries over an adversarial alphabet of names, types and link targets, with every pre-existing destination state, with and without overwriting',
 'No test uses hostile names, symlinks or two entries that interact.',
 [RCV],[('name filter in recoverDir',RCV),('Stat/Lstat checks',RCV)],['the file system around the destination after btrfscue recover'])
p('C13','Recovery does not overwrite existing files unless told to',
 'Without the overwrite option every file, symbolic link and directory entry that existed in the destination before keeps its type, content and target, while everything else is still recovered. With the option each existing file or link at the place of a recovered file or link ends up exactly as recovered from the image, without leftovers of longer old content. Running the recovery twice gives the same result as running it once.',
 ['histories','configurations'],'all pairs of recovered entry kind and pre-existing entry kind (file shorter and longer, link to file, dangling link, link to directory, directory, fifo), with and without the option, one and two runs',
 'TestRecoverCommand recovers into an empty directory with overwriting on.',
 [RCV],[('Stat/Lstat checks and O_TRUNC',RCV)],['the destination directory before and after btrfscue recover'])
p('C14','One unreadable or broken file does not harm the others, nor silently',
 'When the data or metadata of one entry is missing, outside the image or unreadable, every other entry is still recovered completely. Each entry whose content could not be read completely is named in a warning; such a file still has its recorded size and the data of its other extents; nothing is reported as failed when all its data was read, and no file, link or directory is left out or cut short without a warning, unless an entry that is kept already existed in its place.',
 ['fault_sequences','inputs'],'every entry of a small tree, each extent of it, in turn and in pairs, made unreadable in each way (beyond the image end, straddling it, unreadable address, missing link data, uncreatable target)',
 'No test has a failing read; error paths inside the copy loop are never taken.',
 [RCV],[('error handling in recoverFile and recoverDir',RCV)],['stderr and destination after btrfscue recover'])
p('C15','ls shows each directory completely and truthfully',
 'Listing a directory prints exactly one line for each entry it contains, files before directories and each group in name order, with type, permissions, link count, owner, group, size and time of that entry in its own tree, or question marks if its inode is missing. A path to a file prints that entry, unknown paths are reported without affecting others, and recursive listing prints every directory reachable from the start once, through subvolumes, and ends even on cyclic trees.',
 ['inputs','configurations'],'all small directory trees over an alphabet of names, types, modes and missing inodes, with subvolumes and cycles, all start paths, with and without the recursive and inode options',
 'No test runs ls.',
 [LS,IX],[('listDirectory, listDirItem, sort order',LS),('FindDirItemForPath',IX)],['stdout and stderr of btrfscue ls'])
p('C16','The mounted tree shows the recorded namespace and attributes',
 'Through the mount, looking up, listing, stat-ing, reading links and reading extended attributes under the rescue directory agree with the recorded metadata for every path: exactly the existing names with their types, and size, mode, owner, times, device number, link count, link target, attribute values and (as the block count) stored bytes of that inode in its own tree. Entries have equal inode numbers exactly if they are names of the same inode of the same tree (as long as tree numbers are below 2^24 and inode numbers below 2^40). Names that do not exist give "not found", subvolumes lead into their own tree, and the answers do not depend on the order or repetition of requests.',
 ['inputs','histories'],'all small trees over an alphabet of names, types and attributes, and all request sequences up to a depth from a bounded alphabet',
 'Nothing under the FUSE layer is tested.',
 [RN,RS,IX],[('Lookup, OpenDir, GetAttr, Readlink, GetXAttr, ListXAttr',RN)],['FUSE replies'])
p('C17','Reading a mounted file returns the file\'s bytes',
 'Reading any range of a file through the mount returns exactly the bytes of that range of the file as recorded, stopping only at the end of the file: data of every extent the range touches, zeros for holes, preallocated ranges and gaps. Empty files open and read as empty; data that cannot be read gives an error or, without an image, is never replaced by unrelated bytes; and the result does not depend on earlier reads.',
 ['inputs'],'all files of a bounded extent alphabet and every read offset and length around every extent, page and file boundary',
 'Nothing under the FUSE layer is tested; partial overlap arithmetic depends on offset, length and extent layout together.',
 [RF,RN],[('newExtentFile, extentFile.Read',RF),('rescueNode.Open',RN)],['FUSE READ replies'])
p('C18','Concurrent access to a mount or index behaves like one at a time',
 'Any number of requests served at the same time by one mount, and any number of readers of one index opened for reading, each get the answer they would get alone, in every interleaving. No interleaving crashes the server, loses a directory entry, or exposes partly initialised tables.',
 ['schedules'],'all interleavings with a bounded number of preemptions at every shared access of pairs of requests on cold state, plus a race-detector pass over the same pairs',
 'No test issues two requests at once, and lazily built maps and caches only go wrong in particular interleavings of the first requests.',
 [RN,RF,IX],[('lazily filled dirItems and attr caches',RN),('lazily built stripe map',IX)],['replies of concurrent FUSE requests and of concurrent index calls'])
p('C19','Neither the image nor the metadata is ever modified by reading tools',
 'No command other than the scan modifies the metadata file, and no command ever modifies, locks against reading, or needs write permission to the image; inspection commands work with read-only permission on both files. No request sent through the mount changes either file or the recorded view, whatever open flags and modifying operations it uses.',
 ['inputs','histories'],'every command and option on read-only and writable files, and every modifying FUSE request with every open flag on every kind of node',
 'Tests never compare the image or metadata before and after, nor run with read-only permission.',
 [RN,MNT,LS,RCV,'cmd/dump_index.go',REC,ID,IX],[('os.Open and read-only index',IX),('NewReadOnlyFile',RN)],['content and permissions of image and metadata'])
p('C20','On-disk structures decode field by field',
 'Every accessor of every on-disk structure returns exactly the little-endian value at the position the btrfs format defines, for every value of that field, and is not influenced by any other byte. Names and inline data are returned with their recorded length, times with seconds and nanoseconds, and leaf items by position with the key, data offset and size their headers state.',
 ['inputs'],'every accessor, every byte position of the structure, every byte value, over several backgrounds; all item positions of leaves of every size class',
 'Only KeyCompare has a unit test; a wrong offset in a rarely used field compiles and passes everything.',
 [BT,LF,'pkg/btrfs/slice.go'],[('offset constants and Slice* helpers',BT)],['exported accessors of package btrfs'])
p('C21','Key order and key names are consistent',
 'Comparing keys is a strict total order by type, object id and offset that agrees with the order in which stored items are iterated. Different keys never print the same, known object ids and types print as their btrfs names, and everything else as its number.',
 ['inputs'],'all pairs and triples of keys over a boundary alphabet, all 256 types and all special object ids',
 'TestKeyCompare compares three pairs; the printed names are never tested.',
 [BT,'pkg/btrfs/to_string.go',KF],[('KeyCompare',BT),('ObjectIDString, KeyTypeString, Key.String','pkg/btrfs/to_string.go')],['KeyCompare, Key.String, dump-index order'])
p('C22','Name hashes equal those of btrfs',
 'The hash computed for any byte string equals the one btrfs stores as the offset of the directory entry of that name (CRC32C with the btrfs seed, no final inversion).',
 ['inputs'],'all strings up to length 2 (3 in the thorough tier) and all single-byte variations at every length up to 255',
 'TestRecoverCommand uses the function on both sides, so a wrong hash cancels out.',
 [IX],[('NameHash',IX)],['index.NameHash'])
p('C23','Filesystem ids survive printing and parsing',
 'Printing an id and parsing the result gives the same id, in the usual dashed lower-case form; parsing accepts upper and lower case with or without dashes. Anything that is not exactly 32 hexadecimal digits plus dashes is rejected with an error and leaves the previous value unchanged.',
 ['inputs'],'every byte position with every value, all single-character corruptions, insertions and deletions of a printed id, all lengths',
 'Unit tests parse a handful of literals.',
 ['pkg/uuid/uuid.go'],[('String, Set, New','pkg/uuid/uuid.go')],['uuid.UUID','--id flag'])
p('C24','A block read either fills the block or fails',
 'Reading a block reports success if and only if the whole block was read from the requested offset, whatever sequence of partial reads, end-of-file or error answers the underlying device gives; otherwise an error is returned.',
 ['fault_sequences','inputs'],'all reader answers (bytes returned 0..block size, with no error, end of file, or another error) for all small block sizes and offsets',
 'TestReadBlockAt uses an in-memory reader that never returns short reads without error or full reads with end-of-file.',
 ['pkg/ioutil/ioutil.go'],[('ReadBlockAt','pkg/ioutil/ioutil.go')],['ioutil.ReadBlockAt'])
p('C25','The index dump lists every stored item version once',
 'The dump prints one line for every stored item version, with its key and generation, in ascending order of tree, key and generation, under a heading of its tree, and prints nothing else. It ends normally for any content including an empty index.',
 ['inputs'],'all small sets of item versions over a boundary alphabet including empty, single-item and neighbouring-tree sets',
 'No test runs dump-index.',
 ['cmd/dump_index.go',IX],[('FullRange',IX)],['stdout of btrfscue dump-index'])
p('C26','Unreadable device blocks cost no more than themselves',
 'If reading any single block or group of blocks of the device fails during a scan, every leaf in the other blocks is still captured and the failure is reported. If it fails during identification, the ids in the other sampled blocks are still reported.',
 ['fault_sequences'],'every read of a scan and of an identification failed in turn, and pairs and runs of failures',
 'No test injects a read error.',
 [REC,ID,'pkg/ioutil/ioutil.go'],[('ReadBlockAt error handling in the scan loop',REC),('sampling loop',ID)],['metadata and output after btrfscue recon / identify under injected I/O errors'])
p('C27','Commands do what their options say, or fail and change nothing',
 'A command that lacks arguments, the metadata file or the filesystem id it needs, or is given too many arguments, unknown options, malformed or impossible option values, or files that cannot be used, ends with a message and a status that says failure, and creates, changes and deletes nothing. The metadata file is that of the metadata option wherever it stands, or otherwise that of the environment variable BTRFSCUE_METADATA. Options that select what is displayed (verbose, progress, machine) never change what is found, stored, listed or recovered, and a command that did its work reports success.',
 ['inputs','configurations'],'all places and sources of the metadata option, all combinations of display options, all kinds of misuse of every command',
 'No test runs the program, parses a command line or looks at its exit status.',
 ['cmd/root.go',REC,'cmd/ls.go','cmd/recover.go','cmd/mount.go','cmd/identify.go','cmd/dump_index.go','cmd/btrfscue/app/util/cliutil.go','pkg/btrfs/util.go'],[('option definitions and checks before any work','cmd/root.go'),('Fatalf, ReportError, Verbosef','cmd/btrfscue/app/util/cliutil.go'),('CheckDeviceSize','pkg/btrfs/util.go')],['exit status, stdout, stderr and files after running btrfscue'])
p('C28','Identification looks at the requested share of the device',
 'Identification examines the requested fraction of all blocks of the device, but not fewer than the minimum and not more than the maximum number of blocks (1000 and 1000000 unless given), all blocks where that is more than there are, and in any case every block around the superblock copies on the device (at most these come on top). No block is counted twice. Each choice of random samples gives the same number of blocks. By default ids that occur fewer than four times are not listed.',
 ['inputs','configurations'],'all combinations of device and block sizes, fractions, minimum and maximum counts around each boundary, several orders of random draws',
 'The only test of sampling calls one helper with a few sizes; no test runs the command or its options.',
 [ID,'cmd/identify.go'],[('IdentifyFS, MakeSampleOffsets',ID),('option defaults','cmd/identify.go')],['stdout of btrfscue identify'])
p('C29','Parse buffers read on in order and never behind their end',
 'A parse buffer starts at offset 0. Each of its reads yields the bytes, or the number or time in the byte order of the buffer, at the current offset and moves the offset behind them; a read that needs more bytes than are left between the offset and the length of the buffer panics, even where memory behind the buffer holds more. Rewind and SetOffset move to the given offset, and the offset, the length and the number of unread bytes are reported accordingly. The bytes themselves never change.',
 ['inputs','histories'],'all sequences of operations up to a length on buffers of every small length, alone or at the start of a larger array',
 'No test uses a parse buffer.',
 ['pkg/btrfs/parse_buffer.go'],[('ParseBuffer','pkg/btrfs/parse_buffer.go')],['results and panics of the methods of btrfs.ParseBuffer'])
p('C30','Commands that cannot write their results say so',
 'Whenever the system refuses to store results, the program says so and goes on as far as it can. A scan that cannot write, extend or flush the metadata ends with a message and a status that says failure, never as if it had succeeded; the metadata then still holds all that was stored before, nothing that the image does not hold, and another scan completes it. A recovery names every entry that it could not create, write or close in a warning, and recovers all entries that are not concerned exactly as otherwise. A listing, dump, identification or completion script that cannot be written to the standard output completely ends with a message and a status that says failure.',
 ['fault_sequences'],'every writing system call of scans, recoveries and listings failed in turn, alone and with all later ones, with several errors',
 'No test makes a write fail, and none runs the commands.',
 ['cmd/recon.go','cmd/recover.go','cmd/ls.go','cmd/dump_index.go','cmd/completion.go','internal/identify/identify.go','pkg/btrfs/index/index_store.go'],[('Commit, InsertItem','pkg/btrfs/index/index_store.go'),('recoverFile and its callers','cmd/recover.go'),('output through one writer that is checked at the end','cmd/ls.go')],['exit status, stderr, metadata and destination after running btrfscue under injected write errors'])
p('C31','A mount ends cleanly when told to, and only then',
 'Whenever the mount command gets a signal to end (interrupt or terminate) after its mount was made, also while it is still starting, while requests are pending, or again while it already ends, it answers the requests it got, unmounts the filesystem, trying again if it is busy for a moment, and ends successfully. It never ends and leaves behind a mount that nobody serves, unless unmounting keeps failing, which it then reports with a message and a status that says failure. When the filesystem was unmounted by others, the command ends by itself and releases the image and the metadata. A mount that cannot be made ends with a message and a status that says failure. Without a signal it goes on serving.',
 ['schedules','fault_sequences','histories'],'all points of the life of a mount at which signals arrive, the mount goes away or fusermount fails, alone and in pairs',
 'No test mounts anything or sends a signal.',
 ['cmd/mount.go','internal/rescuefs/rescuefs.go'],[('doMountRescueFS: signals, Serve and Unmount','cmd/mount.go')],['exit status, stderr and the unmounting of the filesystem by btrfscue mount'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
