"""The properties (source of properties.jsonl and of MANIFEST.json)."""


def P(id, title, statement, over, text, why, files, mech, observe=(), state=()):
	return {"id": id, "title": title, "statement": statement,
	        "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
	        "anchors": {"files": list(files), "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
	                    "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe),
	                    "hook_needed": None}}


NOT_APPLICABLE = {}
PROPERTIES = [
	P("S01", "SRR and RAR block encoding round trip",
	  "Every SRR block that the library accepts to build (header, stored file, RAR file, OSO hash, padding) reads back, "
	  "alone or in a file with others, with exactly the names, sizes, hashes and data it was given, and only names that "
	  "cannot be represented are refused. Parsed RAR blocks report exactly the encoded header fields and keep the header "
	  "bytes verbatim.",
	  ["inputs"], "all names (any Unicode, any length up to the 16-bit header limit), sizes, hashes, flags, field values "
	  "and data lengths",
	  "Tests build a handful of blocks with ASCII names and small sizes; the limits (16-bit header size in bytes of UTF-8, "
	  "32/64-bit sizes, leading zeros of hashes) are never reached.",
	  ["rescene/rar.py", "rescene/utility.py"],
	  [("block constructors (create and parse halves)", "rescene/rar.py"), ("RarReader", "rescene/rar.py")],
	  ["block_bytes()", "RarReader.read_all()"]),
	P("S02", "Reading RAR/SRR accounts for every byte or reports an error",
	  "Reading any file as RAR or SRR terminates and either yields blocks that follow each other from the first byte to "
	  "the last (header, declared data that is present in that kind of file, trailing padding), with the header bytes of "
	  "the file, or raises one of the documented errors. A file cut off anywhere but at a block boundary is reported.",
	  ["inputs"], "all byte contents: every block type, flag combination, header size, declared size and truncation point",
	  "Tests read a few real archives; malformed sizes, flag/type combinations and truncation points are unbounded.",
	  ["rescene/rar.py"], [("RarReader._read block loop, padding and recovery record detection", "rescene/rar.py")],
	  ["RarReader.read_all()"]),
	P("S03", "Rebuilding gives back the original RAR volumes byte for byte",
	  "An SRR made from uncompressed RAR volumes holds every volume's headers in order and none of the packed data, and "
	  "rebuilding from that SRR and the extracted files gives back every volume byte for byte, under its original name and "
	  "folder, whether all volumes are asked for or only one. A missing file or a file of the wrong size is refused, a file "
	  "with the wrong contents gives a checksum warning, and existing output, the volumes and the source files are never changed. "
	  "Compressed volumes are refused unless asked for, and a creation that fails this way leaves no half-written SRR.",
	  ["inputs", "histories"], "all volume sets: number of volumes and files, where files are split, header fields, optional "
	  "blocks (comment, directory, authenticity, end), trailing bytes, naming scheme, sub folders, file sizes and contents",
	  "Tests rebuild two fixed tiny releases; split points, sizes, padding, blank end blocks and mixed layouts are unbounded.",
	  ["rescene/main.py", "rescene/rar.py", "rescene/rarstream.py", "rescene/utility.py"],
	  [("create_srr, create_srr_fh, _handle_rar, create_srr_single_volume", "rescene/main.py"),
	   ("reconstruct, _locate_file, _auto_locate_renamed, _repack, _write_recovery_record", "rescene/main.py")],
	  ["the SRR file and the files of the output folder"]),
	P("S05", "Editing an SRR changes exactly what was asked",
	  "Adding, removing or renaming stored files of an SRR changes only those: everything else in the SRR (other stored files "
	  "with their contents and order, RAR headers, recovery data, OSO hashes, unknown parts) stays byte for byte the same. "
	  "A name that is already stored is refused and leaves the SRR as it was, as does a file that is not an SRR.",
	  ["inputs", "histories"], "all SRR layouts, stored names, contents and sequences of edits",
	  "Tests edit one or two fixed SRR files; layouts with recovery data, padding, several sets and sequences of edits are not "
	  "sampled.",
	  ["rescene/main.py", "rescene/rar.py"],
	  [("add_stored_files, remove_stored_files, SrrFile rename", "rescene/main.py")],
	  ["the SRR file after the call"]),
	P("S06", "An edit or a failed operation never loses the SRR",
	  "Whichever file operation fails during an edit of an SRR (adding, removing, renaming stored files, replacing a result "
	  "file), and wherever the process is killed, the SRR afterwards is complete: exactly the old one or exactly the new one. "
	  "A failed edit is reported and leaves no temporary files behind.",
	  ["fault_sequences", "crash_points"], "every file operation failing, every crash point (including unflushed buffers)",
	  "Tests never make a file operation fail, and never stop the process half way.",
	  ["rescene/main.py", "rescene/utility.py"],
	  [("add_stored_files, remove_stored_files, renameto", "rescene/main.py"),
	   ("create_temp_file_name, replace_result, replace_file", "rescene/utility.py")],
	  ["the SRR file and the directory after the failure or crash"]),
	P("S04", "The information shown about an SRR is what the SRR holds",
	  "Listing an SRR (info) gives its application name, every stored file with its size, every "
	  "volume with its full original size, every archived file with its full size and the checksum of its last piece, the entries "
	  "and comments of the stored SFV files, the size of the recovery record data, the OSO hashes and whether files are compressed, each once and "
	  "nothing else.",
	  ["inputs"], "all SRR files: volumes, archived files and where they are split, 64-bit sizes, checksums, recovery "
	  "records, stored SFV contents, OSO hashes",
	  "Tests list a few fixed SRR files; split points, large sizes, recovery records and mixed layouts are unbounded.",
	  ["rescene/main.py", "rescene/rar.py", "rescene/utility.py"],
	  [("info", "rescene/main.py"), ("SfvEntry, parse_sfv_data", "rescene/utility.py")],
	  ["info() result"]),
	P("S07", "Merging SRR files keeps everything of all of them",
	  "Merging SRR files gives an SRR with all stored files of all inputs, in order, followed by all other blocks of all "
	  "inputs byte for byte in order, under the given application name (or the first one that is not empty); the inputs "
	  "stay as they were. The result may take the place of one of the inputs.",
	  ["inputs"], "all pairs and triples of SRR layouts, names, contents and application names",
	  "Tests merge one pair of fixed files.",
	  ["rescene/main.py"], [("merge_srrs", "rescene/main.py")], ["the merged SRR file"]),
	P("S08", "Stored files come back from an SRR as they went in, inside the output folder",
	  "Storing files in an SRR and extracting them gives the same names, folders and contents; extraction writes only below the output "
	  "folder and refuses stored names that lead elsewhere (empty, '.' or '..' elements, absolute paths). Only the files that were selected are "
	  "extracted, existing files are kept unless the user asked to overwrite them, and the result reports which files were written.",
	  ["inputs"], "all stored names (separators of both kinds, dots, empty elements), contents, selections, existing files and storage "
	  "paths",
	  "Tests extract a few plain names; hostile names are an unbounded set.",
	  ["rescene/main.py", "rescene/utility.py"],
	  [("extract_files, _extract, _opath, _store, _search", "rescene/main.py"), ("joinpath", "rescene/utility.py")],
	  ["files in the output folder"]),
	P("S09", "Reading a packed file through its volumes is reading the file",
	  "A RAR stream of a store-mode file behaves as the extracted file opened for binary reading: any sequence of seeks and reads gives the bytes "
	  "at those positions, and length, tell and reading to the end agree, however the file is split over the volumes and whichever "
	  "of several packed files it is. A set that is not started with its first volume, a "
	  "compressed file and a name that is not packed are refused; the fake file used while rebuilding reads as that many zero bytes.",
	  ["inputs", "histories"], "all splits over volumes, file sizes, seek/read sequences and origins",
	  "Tests read one fixed set at a few offsets; splits, origins and read sizes across volume borders are unbounded.",
	  ["rescene/rarstream.py"], [("RarStream, FakeFile", "rescene/rarstream.py")],
	  ["read, seek, tell, length"]),
	P("S11", "Recovery records are made again, byte for byte",
	  "Where the recovery record data was removed from a volume, rebuilding makes it again from the rebuilt part before it: the low 16 bits of the inverted checksum of every "
	  "sector and the parity sectors of all slices, in both forms of the record, so that the volume is the original and a lost sector can be repaired with "
	  "it. Recovery data an older SRR still holds is used as it is, volume by volume; a new SRR holds none.",
	  ["inputs"], "all protected contents, sector counts, partial last sectors and mixtures of kept and removed records",
	  "Tests rebuild one or two fixed volumes with recovery records.",
	  ["rescene/main.py"], [("reconstruct, _write_recovery_record", "rescene/main.py")], ["the rebuilt volume files"]),
	P("S13", "SFV files: every line is accounted for, volumes come in order, once",
	  "Parsing an SFV file puts every line into exactly one of entries, comments and errors, with the file name and the eight digit "
	  "checksum of each entry, whatever the line ends, quotes and blanks. Sorting entries and volume lists gives the order of the set "
	  "(first volume, then the others by number) for every naming scheme and any initial order, and files listed by several SFV files are used once.",
	  ["inputs"], "all SFV contents, line ends, checksum digits, naming schemes and orders",
	  "Tests parse a few fixed files; line forms and orders are unbounded.",
	  ["rescene/utility.py", "rescene/main.py"],
	  [("parse_sfv_data, parse_sfv_file, filter_sfv_duplicates, SfvEntry", "rescene/utility.py")],
	  ["parse_sfv_data() result", "sorted() order", "volumes of the created SRR"]),
	P("S14", "Names of RAR volumes: what is one, which is the first, which is the next",
	  "For every volume name of the supported schemes (.partN.rar with any number of digits, .rar/.r00 to .z99, .001 numbers, in any "
	  "capitals) the next archive name is the name of the volume with the next number and otherwise unchanged; it is "
	  "recognised as a RAR volume and other extensions are not. The first volumes picked from a set of files are exactly those a set "
	  "starts with, and following next names from the first visits every volume once.",
	  ["inputs"], "all base names, numbers, digit counts and capitals",
	  "Tests check a few names; the numbering carries (.r99 to .s00, 09 to 10) are an unbounded family.",
	  ["rescene/utility.py"], [("next_archive, is_rar, first_rars", "rescene/utility.py")], ["returned names"]),
	P("S10", "OpenSubtitles hashes are those of the packed video files",
	  "The hash computed for a file, an open stream or a packed file through its volumes is its size plus the sums of the little-endian 64-bit words of its first "
	  "and last 64 KiB, modulo 2^64, as sixteen lower case digits; files too small for it are refused. A new SRR holds that hash for every "
	  "packed video file and only those, after everything else, and listing the SRR shows it.",
	  ["inputs"], "all file contents, sizes and splits over volumes",
	  "Tests hash a fixed file or two; contents, odd sizes and volume borders within the windows are unbounded.",
	  ["rescene/osohash.py", "rescene/main.py"], [("compute_hash, osohash_from", "rescene/osohash.py"), ("create_srr", "rescene/main.py")],
	  ["compute_hash() result", "hash blocks of the SRR"]),
	P("S15", "Names and times of archived files are read as they were written",
	  "The name of an archived file is decoded to the characters it was made from in every form RAR has for it (plain, encoded Unicode with all its "
	  "character forms, UTF-8), the time is the DOS time and the extended times add their seconds and 100 ns parts; compression method, "
	  "dictionary and sizes are those the header holds; the header bytes are kept. A "
	  "file with such a name is listed under it and found when rebuilding.",
	  ["inputs"], "all names in all encodings, all DOS times and extended time fields",
	  "Tests decode a handful of names and times.",
	  ["rescene/rar.py", "rescene/unicode_filename.py"],
	  [("RarPackedFileBlock, UnicodeFilename", "rescene/rar.py"), ("parse_ext_time, to_datetime", "rescene/rar.py")],
	  ["file_name, orig_filename, mtime, ctime, atime, arctime of a block"]),
	P("S18", "The content hash identifies the RAR metadata, and nothing else",
	  "Two SRR files with the same RAR metadata have the same content hash, whatever their order of volumes, application name, stored files, folders and "
	  "OSO hashes; any difference in the headers of any volume gives a different hash. Editing stored files never changes it.",
	  ["inputs"], "all pairs of SRR files: volume orders, header fields, stored files, edits",
	  "Tests compare a few fixed pairs.",
	  ["rescene/main.py"], [("content_hash", "rescene/main.py")], ["content_hash() result"]),
	P("S19", "The srr tool: an SRR is only replaced by a complete one, and verification and rebuilding tell the truth",
	  "The srr tool makes the complete SRR of the volumes and the SFV it is given, under the name or in the folder asked for. An SRR that is there already is only "
	  "replaced when the user agrees, and then by a complete one. When volumes are missing or unreadable, or any file operation fails, that is reported "
	  "(not as an unexpected error when the input is at fault), an SRR that was there stays as it was, no incomplete SRR and no temporary file is left, and the volumes "
	  "are not changed. Verifying (-q) succeeds only if every archived file is there with the right content. Rebuilding gives back the volumes and stored files "
	  "in the output folder, with or without their paths (-p), and only the asked for volumes (-m).",
	  ["inputs", "faults", "histories"], "all volume contents and cut points, every failing file operation, all options and answers about existing files, all contents of the files verified",
	  "Tests never run the tool's main; they can't fail each operation.",
	  ["rescene/srr.py"],
	  [("main, create_srr, manage_srr, verify_extracted_files", "rescene/srr.py"), ("create_temp_file_name, replace_result", "rescene/utility.py"),
	   ("_rarreader_usenet", "rescene/main.py")],
	  ["exit status, output folder contents"]),
	P("S20", "pyrescene makes one complete SRR of a release: all volumes, every small file as it is, or nothing",
	  "For a release folder with one or more sets of volumes (in its root or in folders), pyrescene makes one SRR that holds the metadata of all volumes of all its SFV files "
	  "and, with their paths and exact contents, the NFO, SFV, M3U, LOG, CUE, SRS and proof files, and an SRS of every sample (or the text that tells why there is none), except "
	  "those that are excluded by the user. A small file that can't be read completely is reported and left out, never stored in part. When volumes are missing or unreadable, a file "
	  "operation fails, or the user aborts, an SRR that was there stays as it was and no unfinished file is left in the output folder. An existing SRR is only replaced when the user agrees. "
	  "The release itself is never changed.",
	  ["inputs", "faults", "histories"], "all contents of the volumes and small files, every failing file operation, aborts at any block, all cut points of a volume, any order in which the folder is read",
	  "Tests never run it: they only test helpers on fixed names; reading orders, failures and aborts can't be sampled.",
	  ["bin/pyrescene.py"],
	  [("generate_srr, copy_to_working_dir, remove_unwanted_sfvs, get_files", "bin/pyrescene.py"), ("capitalized_fn", "rescene/utility.py"),
	   ("create_srr, add_stored_files", "rescene/main.py")],
	  ["result, SRR, release and output folder contents"]),
	P("R01", "Sample blocks, EBML numbers and laces read back as they were written",
	  "The file and track blocks of an SRS (sizes, checksum, names, signatures, offsets, large file flags) read back with what they were made from, for "
	  "every value the format can hold. EBML sizes and identifiers of every length are decoded to their value, a made EBML number decodes to itself, and "
	  "the frames of a lace (Xiph, EBML, fixed) have the lengths that were encoded and fill the block exactly.",
	  ["inputs"], "all field values, names, number lengths, lace forms, frame counts and frame lengths",
	  "Tests read a few fixed numbers and laces.",
	  ["resample/main.py", "resample/ebml.py"],
	  [("FileData, TrackData", "resample/main.py"), ("GetUIntLength, GetEbmlUInt, MakeEbmlUInt, EbmlReader lacing", "resample/ebml.py")],
	  ["fields of the parsed blocks, serialize()", "frame_sizes, element lengths"]),
	P("R02", "AVI samples: SRS and movie give back the sample, byte for byte",
	  "For every AVI sample whose streams' data is in the movie, the SRS that is made and the movie (or its RAR volumes) give back the sample byte for byte under its "
	  "name, wherever in the movie the data starts and however it is divided into chunks there. A movie with other or missing data never gives a file "
	  "that passes for the sample: failure is reported, nothing half-made stays, and neither sample nor movie is changed.",
	  ["inputs", "histories"], "all chunk layouts, sizes, contents, stream counts, places of the match and cut points of the movie",
	  "Tests make SRS files of a few tiny fixed samples and never rebuild one from a movie.",
	  ["resample/main.py", "resample/srs.py"],
	  [("avi_profile_sample, avi_create_srs, avi_find_sample_streams, avi_extract_sample_streams, avi_rebuild_sample", "resample/main.py"), ("main", "resample/srs.py")],
	  ["the tool's result and the files it leaves"]),
	P("R03", "Matroska samples: SRS and movie give back the sample, byte for byte",
	  "For every Matroska sample whose tracks' data is in the movie, the SRS that is made and the movie (or its RAR volumes) give back the sample byte for byte: "
	  "blocks and groups, laces of every kind, other clusters and track numbers in the movie, headers that are stripped in the sample, the movie or both, and "
	  "attached fonts. A movie with other or missing data never gives a file that passes for the sample: failure is reported, nothing half-made stays, and "
	  "neither sample nor movie is changed.",
	  ["inputs", "histories"], "all element layouts, sizes, contents, laces, header stripping, attachments, places of the match and cut points of the movie",
	  "Tests make SRS files of a few tiny fixed samples and never rebuild one from a movie.",
	  ["resample/main.py", "resample/ebml.py", "resample/srs.py"],
	  [("profile_mkv, mkv_create_srs, mkv_find_sample_streams, mkv_extract_sample_streams, mkv_rebuild_sample", "resample/main.py"),
	   ("EbmlReader", "resample/ebml.py"), ("main", "resample/srs.py")],
	  ["the tool's result and the files it leaves"]),
	P("R04", "MP4 samples: SRS and movie give back the sample, byte for byte",
	  "For every MP4 sample whose tracks' data is in the movie, the SRS that is made and the movie (or its RAR volumes) give back the sample byte for byte: any "
	  "order and size of atoms, one or more mdat atoms, 32 and 64 bit atom sizes and chunk offsets, tracks divided into other chunks in the movie, tracks that "
	  "have no data. A movie with other or missing data never gives a file that passes for the sample: failure is reported, nothing half-made stays, and "
	  "neither sample nor movie is changed.",
	  ["inputs", "histories"], "all atom layouts, sizes, contents, chunk tables, places of the match and cut points of the movie",
	  "Tests make SRS files of a few tiny fixed samples and never rebuild one from a movie.",
	  ["resample/main.py", "resample/mov.py", "resample/srs.py"],
	  [("profile_mp4, mp4_create_srs, mp4_find_sample_streams, mp4_extract_sample_streams, mp4_rebuild_sample, TrackStream", "resample/main.py"),
	   ("MovReader", "resample/mov.py"), ("main", "resample/srs.py")],
	  ["the tool's result and the files it leaves"]),
	P("R05", "WMV samples: SRS and movie give back the sample, byte for byte",
	  "For every WMV sample whose streams' data is in the movie, the SRS that is made and the movie (or its RAR volumes) give back the sample byte for byte: packets "
	  "with one, several and compressed payloads, every width of the packet fields, any padding, and movies that divide the data differently or have other "
	  "streams. A movie with other or missing data never gives a file that passes for the sample: failure is reported, nothing half-made stays, and neither "
	  "sample nor movie is changed.",
	  ["inputs", "histories"], "all packet layouts, field widths, sizes, contents, padding, places of the match and cut points of the movie",
	  "Tests make SRS files of a few tiny fixed samples and never rebuild one from a movie.",
	  ["resample/main.py", "resample/asf.py", "resample/srs.py"],
	  [("profile_wmv, wmv_create_srs, wmv_find_sample_streams, wmv_extract_sample_streams, wmv_rebuild_sample", "resample/main.py"),
	   ("AsfReader, asf_data_get_packet, asf_data_read_payloads", "resample/asf.py"), ("main", "resample/srs.py")],
	  ["the tool's result and the files it leaves"]),
	P("R06", "Music: an SRS and the same music give the tagged track back, byte for byte",
	  "For every FLAC or MP3 track, the SRS that is made and any track with the same music - whatever tags either has (ID3v1, ID3v2, APE, Lyrics3, FLAC metadata) and "
	  "whatever stands before MP3 music - give back the track byte for byte. Music that differs, is cut or misses never gives a file that passes for the track: "
	  "failure is reported, nothing half-made stays, and a track that should have been replaced is left as it was.",
	  ["inputs", "histories"], "all music contents and sizes, all tags of the listed kinds, sizes and contents, all combinations in the bounds",
	  "Tests only read a few tiny fixed files and never rebuild one.",
	  ["resample/main.py", "resample/flac.py", "resample/mp3.py", "resample/srs.py"],
	  [("flac_/mp3_ profile_sample, create_srs, load_srs, find_sample_streams, extract_sample_streams, rebuild_sample", "resample/main.py"),
	   ("FlacReader", "resample/flac.py"), ("Mp3Reader", "resample/mp3.py"), ("main", "resample/srs.py")],
	  ["the tool's result and the files it leaves"]),
	P("R07", "Stream samples: SRS and movie give back the sample, byte for byte",
	  "For every stream sample (vob, ts, m2ts, ...) that is in the movie at any place, also across the borders of the read buffer and of RAR volumes, the SRS and the movie "
	  "give back the sample byte for byte. A movie without it, or with other data after its start, is reported and leaves nothing behind; with -c no SRS is made then.",
	  ["inputs", "histories"], "all contents and sizes of sample and movie, all places of the sample and cuts of the RAR volumes",
	  "No test makes a stream SRS or searches one in a movie.",
	  ["resample/main.py", "resample/stream.py", "resample/srs.py", "rescene/rarstream.py"],
	  [("stream_profile_sample, stream_create_srs, stream_find_sample_streams, stream_extract_sample_streams, stream_rebuild_sample", "resample/main.py"),
	   ("StreamReader", "resample/stream.py"), ("main, verify_main", "resample/srs.py")],
	  ["the tool's result and the files it leaves"]),
	P("R08", "The srs tool writes only what it should, and a failure costs nothing",
	  "The SRS is written with the name and folder the options ask for; a rebuilt sample is always written in the output folder, whatever name the SRS holds. An existing "
	  "SRS or sample is only replaced after agreement or with -y, and only by a complete result: when any file operation fails, the data can't be right or the checksum "
	  "differs, failure is reported, what was there stays, and no temporary file is left. Input files never change; asking for information changes nothing.",
	  ["inputs", "fault schedules"], "all sample names in an SRS, all contents, every file operation failing, the options and answers listed",
	  "Tests call the tool on good input; hostile names and failing operations are not sampled.",
	  ["resample/srs.py", "resample/main.py", "rescene/utility.py"],
	  [("main, can_overwrite", "resample/srs.py"), ("create_temp_file_name, replace_result", "rescene/utility.py")],
	  ["the tool's result and the files it leaves"]),
	P("R09", "Damaged SRS files and samples are reported, and nothing is lost or half-made",
	  "An SRS that is cut off or in which a byte differs either still gives the exact sample, or failure is reported, nothing half-made stays and no file changes, for every "
	  "kind of sample. A sample that is cut off at any place is refused and leaves no SRS, or its SRS gives exactly the cut sample back.",
	  ["inputs"], "all places of the cut and all values of the byte, for one small sample of every kind",
	  "Tests only use good SRS files and a few samples cut at fixed places.",
	  ["resample/main.py", "resample/srs.py", "resample/riff.py", "resample/ebml.py", "resample/mov.py", "resample/asf.py", "resample/flac.py", "resample/mp3.py",
	   "resample/stream.py"],
	  [("load_srs, profile_sample, create_srs, rebuild_sample of every kind", "resample/main.py"), ("main", "resample/srs.py"), ("RiffReader", "resample/riff.py"),
	   ("StreamReader", "resample/stream.py")],
	  ["the tool's result and the files it leaves"]),
	P("U01", "yEnc articles decode to the bytes they were made from",
	  "A yEnc article, single or one of many parts, decodes to exactly the bytes it was made from, whatever the bytes, the line length, the optional escapes and the lines around it; name, "
	  "part number, size and offsets are those of its headers. An article with another checksum or without its end is reported, and ignoring checksums never "
	  "changes the decoded bytes.",
	  ["inputs"], "all contents, line lengths, escapes, names, header numbers and checksums in the bounds",
	  "Tests decode two fixed articles.",
	  ["usenet/yenc.py"], [("decode, yCheck, ySplit, strip", "usenet/yenc.py")], ["decode() result"]),
]
