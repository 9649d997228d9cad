import json
P=[]
def p(id,title,statement,over,text,why,files,mech,level=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=mech,where=', '.join(files))])))
p("C01","What is stored comes back unchanged",
"Every non-empty byte sequence which store accepts (exit status 0) is afterwards returned by get, byte for byte, under the ID which store printed, in any hexadecimal case and with or without the configured prefix, on standard output as well as with -o, until the end of time: whatever else is stored, created or housekept in between, and also after the archive has been moved, its silos write-protected, its cache file lost, or the maximum size, sort size or warcinfo configured anew. The headers get shows describe the whole object: its ID, type, mime-type, total length, SHA256 and, for metadata, the referenced object.",
["inputs","histories","configurations"],"all contents and sizes from one byte to many silos, all mime-types, ID widths, prefixes, silo sizes and silo names, all sequences of store, metadata, mksilo and housekeeping",
"The tests store about a dozen objects in two configurations; sizes around deflate, buffer and silo boundaries and interleavings with housekeeping are not sampled.",
["segjob.c","wsilo.c","rsilo.c","gzip.c","getjob.c","header.c","main_store.c","main_get.c"],
"SegJob_Feed deflates into silos and splits, Wsilo_Commit appends or installs, GetJob_New looks up the index and follows continuation, Rsilo_ReadChunk inflates")
p("C02","IDs are content addresses; nothing is stored twice",
"The ID of a resource is the leading hex digits, of the configured width, of the SHA256 of its content, and the ID of metadata is that of the SHA256 over the bracketed URI of the object it refers to and the SHA256 of the metadata's content, each followed by a newline. Storing something whose ID is already in the archive succeeds, prints that ID, says so on standard error and leaves the silos and the index exactly as they were. Metadata with a forced ID (-i) is found under that ID.",
["inputs","histories","configurations"],"all contents, all orders and repetitions of stores before and after housekeeping and reindex, segmented or not, identical content via different input channels",
"Tests store a handful of duplicates; duplicates of segmented objects, of warcinfo bodies or of continuation segments, at other ID widths, are not sampled.",
["ident.c","segjob.c","getjob.c","main_store.c"],
"Ident_Create computes the ID, SegJob_Commit looks it up with GetJob_New before committing")
p("C03","Silos are valid WARC 1.1 files within the size limit",
"Every silo file which any sequence of operations leaves behind is, read by an independent reader, a sequence of WARC/1.1 records, each of them a gzip'ed header, a gzip'ed non-empty body and a gzip'ed empty-line separator, where the gzip extra field 'Aa' of header and body states the length of that gzip member and Content-Length, WARC-Block-Digest, WARC-Type, WARC-Date and WARC-Record-ID are present, well-formed and true (the date in UTC). The first record, and only the first, is a warcinfo record carrying the silo's file name and exactly the configured warcinfo fields, if any. No silo is larger than the configured maximum size, and silos are created with mode 0640 less the umask.",
["inputs","histories","configurations"],"all stored contents, histories, configurations (silo size, name pattern, ID width, prefix, warcinfo fields), time zones and umasks",
"Tests check silos only with AardWARC itself (audit); nothing verifies the files with independent tools, or their sizes across configurations.",
["wsilo.c","gzip.c","header.c","warcinfo.c","segjob.c"],
"Wsilo_* writes, Header_Serialize, Gzip_AddAa/Gzip_WriteAa, Warcinfo_New, padding header z")
p("C04","Segmented objects are complete and consistent",
"An object which does not fit in one silo is split over as many silos as needed, no more than one segment per silo: segments are numbered 1, 2, 3... without gaps, each later one names the first one's ID as its origin and carries its own content address as ID, only the last one carries the total length, the first one carries the digest of the entire content, and the concatenated segments are that content. An object which fits in one silo is not segmented.",
["inputs","histories","configurations"],"all contents, including those whose compressibility changes abruptly near the end of a silo or which repeat themselves so that segments are identical, all silo sizes, all histories",
"Tests segment a few objects of pseudo-random content; the steering heuristic of the compressor near the end of the silo depends on content and sizes.",
["segjob.c","wsilo.c","getjob.c","rsilo.c"],
"SegJob_Feed's margin and flush heuristics, segjob_newseg/finishseg header padding, SegJob_Commit linking")
p("C05","Compressed delivery is a valid gzip of the object",
"get -z delivers, for every object, segmented or not, exactly one gzip member without trailing bytes, whose CRC and length fields are correct, and which any gunzip expands to exactly the stored bytes.",
["inputs","histories","configurations"],"all contents, numbers of segments, sizes and alignments of segments",
"Tests compare md5 of a few objects through zcat; the CRC stitching over arbitrary segment lengths and alignments cannot be sampled by them.",
["gzip.c","rsilo.c","getjob.c","main_get.c"],
"gzip_stitch_feed removes member headers and trailers and recombines CRCs; Rsilo_ReadGZChunk delivers the raw member")
p("C06","CGI answers are complete, correct HTTP responses",
"For a GET request with the ID of a stored object in PATH_INFO, in any spelling, cgi emits a header with the object's content type, status 200, and a Content-Length equal to the number of body bytes which follow; the body is the object, or, only if the client's Accept-Encoding names gzip and the response says so with Content-Encoding, a single gzip member which expands to it. For every other path it emits an error response (never status 200), and for any other gateway interface or method it refuses with a non-zero exit status and no response body.",
["inputs","histories","configurations"],"all stored objects, all environment variable values a web server may pass",
"Tests make three requests.",
["main_cgi.c","getjob.c","rsilo.c"],
"main_cgi checks environment, GetJob_TotalLength, GetJob_Iter")
p("C07","The index describes the silos exactly",
"After any sequence of store, metadata, mksilo and housekeeping operations, the index lists every record in the silos exactly once and nothing else, with the record's leading 96 ID bits, its type, segment flags, silo number and byte offset, and for a segment which is not the last, the leading 32 bits of the ID of the next segment. dumpindex reports just these entries, all of them or those of the type selected with -t.",
["histories","inputs","configurations"],"all sequences of operations, in all configurations; entries in the appendix, in the sorted index or in both parts",
"Tests look at dumpindex output only by eye; offsets and flags of individual entries are not verified against the silo bytes.",
["index.c","wsilo.c","main_dumpindex.c"],
"IDX_Insert, IDX_Iter, idx_merge, Wsilo_Commit/Wsilo_Install/silo_attempt_append")
p("C08","Housekeeping preserves the index and lookups find everything",
"Housekeeping moves every entry of the appendix to the sorted index, which afterwards is in sorted order, without losing, altering or duplicating any entry, for any number and distribution of keys, any configured sort size, repeated runs, sorted indexes of any size (including gigabytes), and a snapshot left over by an interrupted run. Before, during and after, a lookup of any prefix of a key, of whatever length, finds all entries which have it.",
["inputs","histories","configurations"],"all multisets of index entries (uniform, skewed, clustered, duplicated, extreme keys), all partitions into appendix, snapshot and sorted part, all sort sizes",
"Tests housekeep a few dozen uniformly distributed keys; the bucket interpolation depends on the distribution and number of keys.",
["index.c","main_housekeeping.c"],
"bucket_update/bucket_seek interpolation, idx_merge, IDX_Resort")
p("C09","The index can be rebuilt from the silos alone",
"With the index files lost, reindex recreates from the silo files alone an index in which every record of every silo is listed exactly once with the same content as the original entry, so that every object, segmented ones included, is retrievable again; reindex does not change any silo. With the index in place, lost in part, or restored from an older copy, reindex of the silos concerned, all or some of them, completes it to just that: nothing is linked wrong because of similar IDs, and after it (and housekeeping) nothing is listed twice. reindex reports failure (non-zero exit) if a silo can not be read.",
["histories","inputs","configurations"],"all archives reachable by operations, before and after housekeeping, with gaps in the silo numbers, segmented objects and any silo layout",
"Tests reindex one archive and compare dumps of their own making.",
["main_reindex.c","index.c","rsilo.c","silo.c"],
"main_reindex iterates silos, resolves continuation, writes index entries, then installs the new index")
p("C10","Audit is silent on intact silos and reports every damage",
"On silos as AardWARC wrote them, audit reports no errors, counts every record as good and terminates with exit status zero. If stored data has been altered (body content, length, digests, IDs of resources and metadata, segments missing, reordered or belonging to other objects, silo truncated in the middle of a record or with bytes changed in a compressed body), audit either reports an error for it or fails with non-zero status; it always terminates.",
["inputs","histories","fault_sequences"],"all archives reachable by operations; all alterations of header fields and bodies which keep the silo parseable, and byte-level corruption of compressed data",
"Tests audit good silos and a few hand-made errors.",
["main_audit.c","rsilo.c","header.c","ident.c"],
"audit_silo recomputes digests, lengths, IDs per record; audit_one_pending reassembles segments")
p("C11","get never delivers wrong data and claims success",
"When get exits with status zero, everything the object consists of has been written to the output, correct to the last byte, and nothing else: if a silo is truncated, damaged or missing, if the index points to the wrong record or lies about its segments, or if the output cannot be written completely, get exits with non-zero status or by a signal. With -z, where get does not inflate the object, damage to compressed data may instead be delivered as a stream which is not a valid gzip, but never as a valid gzip of anything else.",
["inputs","fault_sequences","histories"],"all byte-level damage to and truncations of silos, all alterations of index entries, all output failures (records forged consistently, with all checksums, excepted)",
"Tests have no damaged silos for get and no failing outputs.",
["main_get.c","rsilo.c","getjob.c","gzip.c"],
"main_get recomputes SHA256 and length; Rsilo asserts zlib stream integrity")
p("C12","Concurrent use of an archive is safe",
"Any number of store, metadata, mksilo, housekeeping and retrieving commands (get, cgi, byid, filter, dumpindex) may run at the same time on one archive: every store which reports success can be retrieved at once and forever, objects stored earlier stay retrievable and are found by every reader throughout, silos and index satisfy C03, C04 and C07 (except that simultaneous stores of the same object may each be recorded), and no command fails, hangs or leaves a hold behind because of the others.",
["schedules","histories"],"all interleavings of the system calls of concurrently running commands",
"The test suite runs one command at a time.",
["wsilo.c","index.c","segjob.c","main_housekeeping.c"],
"O_EXCL .hold files, link(2), flock(2) on index.appendix, rename(2) of the sorted index, O_APPEND")
p("C13","A crash at any point loses nothing acknowledged",
"If store, mksilo or housekeeping is killed at any point, everything which was in the archive before is still retrievable unchanged and everything in the index points to a complete record; running reindex is possible, and the object which was being stored is either retrievable or can be stored again successfully. What a killed command leaves behind does not stop later stores, housekeeping, audits or rebuilding of the index.",
["crash_points","histories"],"process death before, after and in the middle of every file-system call of store, mksilo and housekeeping, with and without segmented objects",
"The tests never kill a command.",
["wsilo.c","segjob.c","index.c","main_housekeeping.c"],
"Data is written to .hold files, link(2)ed into place, index entries inserted afterwards; segments last to first; housekeeping snapshot")
p("C14","I/O errors are reported, never swallowed",
"If any system call for reading input, or for creating, reading, writing, linking or renaming archive files fails, or transfers less than asked, the command either still does its job completely or exits with non-zero status (or by a signal): it never reports success for something it did not do, and whatever was in the archive before is still retrievable once the fault is gone.",
["fault_sequences","inputs"],"every file-system call of store, get, housekeeping, reindex and the index lookups, each with the errors ENOSPC, EIO, EACCES, EMFILE and short transfers",
"The tests inject no faults.",
["wsilo.c","index.c","main_store.c","main_reindex.c","rsilo.c","segjob.c"],
"assert()s around system calls, explicit error paths, SegJob_Abandon")
p("C15","Silos are append-only and failed commands change nothing",
"No operation other than rebuild ever changes or removes a byte of a silo once it has been written: silos only come into existence or grow at the end by complete records, and write-protected silos do not change at all. Commands which only read (get, cgi, byid, dumpindex, filter, audit, info) and commands which refuse their arguments or input change nothing in the archive, and no command leaves behind temporary files or holds when it ends normally.",
["histories","inputs","configurations"],"all sequences of commands, including invalid ones, with any subset of silos write-protected",
"The tests do not look at what else a command changed.",
["wsilo.c","main_store.c","segjob.c","index.c"],
"silo_attempt_append with O_APPEND, S_IWUSR check, wsilo_delete unlinking holds")
p("C16","stow archives a whole directory tree",
"When stow exits with status zero for a set of jobs, then for each job every non-empty regular file of its directory is in the archive under its content ID with exactly the content of the file, the mtree specification of the directory is in the archive, and a metadata record referring to it, of valid JSON naming the job and the mtree's digest, has been stored. Files already in the archive are not stored again, and stow terminates, for any number of files and any file names, sizes and directory depths; if the stevedore disappears or refuses, stow exits with non-zero status.",
["inputs","histories","schedules"],"all directory trees (counts, names with blanks and non-ASCII bytes, sizes, duplicates, depth), all prior archive contents, all relative speeds of the two ends",
"The tests stow two small directories.",
["main_stow.c","main_stevedore.c","proto.c","main_filter.c"],
"mtree parsing, filter protocol, get/ack lists, metadata when all files are acknowledged")
p("C17","stevedore follows its protocol for any client",
"For every valid sequence of protocol messages, however it is fragmented into reads, stevedore answers each batch of filter requests, in order, with exactly those IDs which are not in the archive, answers each completely transferred object with its ID once it is in the archive, in order, and each metadata object with its URI, after which all of them can be retrieved unchanged. If the client disconnects at any point, stevedore terminates without hanging, crashing or damaging the archive.",
["inputs","schedules","histories"],"all message sequences, message sizes, fragmentations and disconnect points",
"The tests only exercise it through stow.",
["main_stevedore.c","proto.c","main_filter.c","vlu.c"],
"proto_in/proto_out framing, filter queue batching, store and metadata jobs")
p("C18","filter reports exactly the missing (or present) IDs",
"For any list of IDs, in any order and with repetitions, in any hexadecimal case, with or without prefix, at any configured ID width, from standard input or files, filter outputs exactly those lines, in input order, whose ID (its leading 96 bits, or with -s all of it) is not in the archive, with -r exactly those which are, and with -v every line with its status. Anything which is not an ID of full width is refused with non-zero status.",
["inputs","histories","configurations"],"all ID lists and all archive contents, with entries in any part of the index, including different IDs which agree in their first 96 bits",
"The tests filter a few IDs in one configuration.",
["main_filter.c","index.c"],
"filter_iter merges the sorted candidate list with the index iteration")
p("C19","store refuses what it cannot store faithfully",
"store exits with non-zero status, and stores nothing, for empty or unreadable input, mime-types not configured for the type of object, overlong or containing control characters, a reference or forced ID which is malformed or missing where needed or given where not allowed, and metadata referring to an object which is not in the archive. Everything else is accepted: mime-types match the configured lists case-insensitively, or through a configured '*', and arguments of every length and content are handled without crash or corrupted headers.",
["inputs","configurations"],"all combinations of options, mime-types, IDs and configured mime-type lists",
"The tests try a dozen bad argument combinations.",
["main_store.c","config.c","header.c","ident.c"],
"argument checks in main_store, mime_type(), Config_Find, IDX_Valid_Id")
p("C20","Hostile files and input never corrupt memory",
"Whatever bytes are in the configuration file, in silos, in the index files, in the protocol streams, on standard input, in arguments or in the environment, no command reads or writes memory out of bounds, uses freed or uninitialised memory, or executes other undefined behaviour, and every command terminates (possibly by deliberately aborting).",
["inputs","configurations"],"all byte sequences for each of the inputs",
"The tests feed only well-formed files; memory errors mostly go unnoticed without instrumentation.",
["config.c","header.c","rsilo.c","gzip.c","index.c","main_rebuild.c","main_reindex.c","main_audit.c","proto.c","main_stow.c","main_stevedore.c","vlu.c","vsb.c","vnum.c","main_cgi.c","main_filter.c"],
"parsers of config, header, gzip extra fields, index records, protocol frames, mtree output")
p("C21","byid and dumpindex match exactly the given prefix",
"For every hexadecimal string, of any length and case, given to byid or dumpindex, the records reported are exactly those whose (leading 96 bits of the) ID start with it, each exactly once with the right ID and type; byid's exit status is the number of matches (at most 255), or zero with -e. Non-hexadecimal arguments never match anything.",
["inputs","histories","configurations"],"all prefixes (including the empty one and odd numbers of digits) and all archives, entries in any part of the index",
"The tests look up a few prefixes of known IDs.",
["main_byid.c","main_dumpindex.c","index.c"],
"IDX_Iter prefix comparison in binary and text")
p("C22","rebuild produces equivalent silos",
"rebuild of silos written by AardWARC produces output in which every record appears, in order, with the same ID, type, content and content-related headers, as valid WARC framing that reindex and get accept when the rebuilt silos replace the originals; the source silos are not modified. Records of older versions, which have a WARC-record-digest instead of a block digest, get a correct block digest and the ID of their content. If a silo can not be read completely or the output can not be written, rebuild exits with non-zero status.",
["inputs","histories","fault_sequences"],"all silos reachable by operations, in all configurations; damaged silos; full disks",
"Tests rebuild one silo.",
["main_rebuild.c","rsilo.c","gzip.c","header.c"],
"main_rebuild copies record by record with re-serialised headers")
p("C23","Every silo has its one place and is never overwritten",
"Silo number N is stored under a path determined only by N, the configured directory and name pattern, with at most 100 silos or subdirectories per directory (0/ for 0-99, 1/xx/ for 100-9999, 2/xx/yy/ for 10000-999999 and so on). mksilo N creates just that silo, with a warcinfo record and index entry, or fails with non-zero status without changing anything if it exists or is held or N is not the number of a silo (0 to 4294967295); new silos get the lowest number not in use at or above the cached first free number, a stale, damaged or missing cache file never makes any object or silo lost or overwritten.",
["inputs","histories","configurations"],"all silo numbers, all patterns of existing silos, holds and gaps, all contents of the cache file",
"Tests create silos 0, 1 and a few more.",
["silo.c","wsilo.c","aardwarc.c","main_mksilo.c"],
"numpart, Wsilo_New with O_EXCL hold and stat, Wsilo_Next, _.cache")
p("C24","Configuration is interpreted as documented or refused",
"Sizes in the configuration are taken as decimal numbers with optional k, M, G, T, P binary multiplier and b suffix, and take effect exactly; ID widths other than multiples of four from 64 to 256 bits, prefixes or silo directories not ending in '/', silo name patterns without exactly one integer (%u compatible) conversion or with '/', negative, non-numeric or astronomical sizes and missing mandatory fields are refused with non-zero status before anything in the archive is touched. Sections and parameters mean the same regardless of order, comments, blank lines and indentation, and info reports the ID width in use, also as valid JSON.",
["inputs","configurations"],"all configuration files",
"Tests cover a dozen configuration errors.",
["config.c","aardwarc.c","vnum.c","main_info.c","main.c"],
"Config_Read parser, AardWARC_New validation, VNUM_2bytes")
p("C25","Objects with similar IDs are never confused",
"Objects whose IDs agree in any number of leading digits, including the entire 96 bits the index keeps and the 32 bits with which segments are linked, are kept apart: each is stored, found, listed, reassembled and delivered as itself, never as the other, never reported present when only the other one is, and never missed because of it (filter without -s looks at nothing but the index, and so at 96 bits).",
["inputs","histories","configurations"],"all sets of IDs with common prefixes of any length, for resources, metadata with forced IDs, warcinfo records and continuation segments, in any order of storing and housekeeping",
"SHA256 prefixes never collide by accident in a test.",
["getjob.c","index.c","main_filter.c","main_audit.c","main_reindex.c","segjob.c"],
"getjob_iter compares full IDs and origins of candidates from the truncated index")
p("C26","Encrypted backups of silos are complete and can be decrypted",
"Each completed run of select_silos.py stages complete encrypted copies of silos which together do not exceed the quota: those whose size changed most since they were last staged first and, among equals, those staged longest ago, up to the first which does not fit. Each staged file decrypts (AES256-CTR with the documented key and IV derived from the name; encrypting again is decrypting) to exactly the silo, is accompanied by its correct SHA256 and HMAC files, and all are readable by others; the date file afterwards records exactly what was staged, when, and at which size. The staging directory only ever holds the complete result of one run, also if the script is killed at any point, after which the next run works; the silos are not touched, silos which are gone do not matter, and if no silo exceeds the quota by itself every silo is staged eventually, so the archive can be restored.",
["inputs","histories","configurations","crash_points"],"all sets and sizes of silos, quotas and sequences of runs with silos growing in between, kill points",
"It has no tests.",["utilities/select_silos.py"],"Encrypt_File, Silo.sortkey, main(), rename of the staging directory")
p("C27","Resource use does not grow with the data",
"Every command works on archives, records and objects of any size in a bounded amount of memory, which does not depend on how many bytes, records or silos there are; only for what has to be remembered, namely each segment of an object, each line of a filter list and each file of a tree to stow, may it keep a few kilobytes at most, and a stevedore serves any number of objects and metadata in one session in the same memory. Commands need only a small fixed number of file descriptors (storing, getting and delivering by CGI one or two more for each segment of the object at hand), however many silos, records, objects and requests there are. No command, whether it succeeds or fails, leaves running processes or temporary files outside the archive behind.",
["inputs","histories","configurations"],"all sizes of archives, objects, lists, sessions and trees; failures",
"Tests use small archives, in which a leak for each record or request does not show.",
["main_store.c","segjob.c","wsilo.c","rsilo.c","index.c","getjob.c","main_audit.c","main_reindex.c","main_rebuild.c","main_filter.c","main_stevedore.c","main_stow.c","proto.c"],
"segment lists in SegJob/GetJob/audit/reindex, index.sort_size buffer of IDX_Resort(), event list of proto.c, Rsilo_Close(), job_end()")
p("C28","Silos are filled before new ones are begun",
"A stored record which is not a segment is appended to the lowest-numbered silo which has room for it under the configured maximum size, down to the last byte, among all those below the first number not in use; only if none of them has room is a new silo begun. Passed over are only silos which another command is appending to at that moment, or with fewer bytes of room than there are silos; and from a write-protected silo on, silos may be left alone. This holds for every sequence of stores, metadata, housekeeping and mksilo, and if the cache file has been lost.",
["histories","inputs","configurations"],"all sequences and sizes of records relative to the room in the silos, all silo sizes, with gaps in the numbers, with the cache file lost",
"Tests never look at which silo a record goes to, so an archive which wastes room or begins a silo for every record passes them.",
["wsilo.c","aardwarc.c"],
"Wsilo_Commit's loop over silo_attempt_append(), room test and cache_first_space_silo heuristic, AardWARC_ReadCache")
for x in P: assert len(x["title"])<=80,x["title"]
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
