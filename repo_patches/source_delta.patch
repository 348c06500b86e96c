From 6dbdff83bde7b6f089bbe6e280521b9cb21ed7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:35 +0000
Subject: [PATCH 01/45] fix: RarReader read an attribute it never initialised

An SRR file with a recovery record before its first SRR RAR block raised
AttributeError: the constructor initialised recovery_records_removed, but
_read() uses recovery_blocks_removed.
---
 rescene/rar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index e4136b2..8b81838 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1428,7 +1428,7 @@ class RarReader(object):
 				self._readmode = self.RAR
 			elif block_type == BlockType.SrrHeader: # 0x69
 				self._readmode = self.SRR
-				self.recovery_records_removed = True # init to be sure
+				self.recovery_blocks_removed = True # init to be sure
 			elif enable_sfx: # SFX ?
 				# TODO: make it resceneable
 				# search for RAR marker block offset
-- 
2.43.0


From a840023ea531708a6f376a9e3546739434ee3d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:08 +0000
Subject: [PATCH 02/45] fix: report a block with cut off header fields as
 EnvironmentError

RarReader documents that it raises EnvironmentError or ValueError on bad
input, and its callers rely on it, but headers that are too short for the
fields their type or flags announce escaped as struct.error or IndexError.
---
 rescene/rar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rescene/rar.py b/rescene/rar.py
index 8b81838..b14e088 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1664,6 +1664,9 @@ class RarReader(object):
 		except EnvironmentError: # corrupt file found
 			self._rarstream.close() # so it's possible to move the bad file
 			raise
+		except (struct.error, IndexError) as err: # header fields cut short
+			self._rarstream.close()
+			raise EnvironmentError("Corrupt RAR block header: %s" % err)
 		if not block:
 			self._rarstream.seek(self._initial_offset)
 			raise StopIteration
-- 
2.43.0


From 6b27400253b99c9ed7485d3813eab1c8d9197f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 03/45] fix: replace an edited SRR in one step, so a failing
 rename cannot lose it

---
 rescene/main.py    |  8 ++++----
 rescene/rar.py     | 21 ++++++++++++---------
 rescene/utility.py | 15 +++++++++++++++
 3 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index ecb05fd..37a4952 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -56,6 +56,7 @@ from rescene.utility import (SfvEntry, is_rar, _DEBUG,
                              first_rars, next_archive, empty_folder)
 from rescene.utility import parse_sfv_file, parse_sfv_data
 from rescene.utility import filter_sfv_duplicates
+from rescene.utility import replace_file
 from rescene.utility import basestring, fsunicode
 from rescene.utility import decodetext, encodeerrors
 from rescene.utility import capitalized_fn
@@ -337,8 +338,7 @@ def add_stored_files(srr_file, store_files, in_folder="", save_paths=False,
 #			raise NotSrrFile("No SrrRarFile blocks detected. -> Not SRR. "
 #							 "Zero files added.")
 		# original srr file is replaced by the temp file
-		os.remove(srr_file)
-		os.rename(tmpname, srr_file)
+		replace_file(tmpname, srr_file)
 
 def remove_stored_files(srr_file, store_files):
 	"""Remove files stored inside a SRR file.
@@ -368,12 +368,12 @@ def remove_stored_files(srr_file, store_files):
 			else: # TODO: write better tests here!!
 				tmpfile.write(block.block_bytes())
 		tmpfile.close()
-		os.remove(srr_file)
-		os.rename(tmpname, srr_file)
 	except BaseException as ex:
 		print(ex)
+		tmpfile.close()
 		os.unlink(tmpname)
 		raise
+	replace_file(tmpname, srr_file)
 
 def rename_stored_file(srr_file, stored_name, new_name):
 	"""Changes the stored file name and the path. 
diff --git a/rescene/rar.py b/rescene/rar.py
index b14e088..aaaf002 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -669,15 +669,18 @@ class SrrStoredFileBlock(_SrrFileNameBlock):
 		                                  dir=os.path.dirname(self.fname))
 		tmpfile = os.fdopen(tmpfd, "wb")
 		
-		with open(self.fname, "rb") as f:
-			tmpfile.write(f.read(self.block_position)) # previous block data
-			tmpfile.write(self.block_bytes()) # new block header
-			f.seek(old_file_offset) # go to beginning stored file
-			tmpfile.write(f.read()) # read all data until EOF
-			
-		tmpfile.close() 
-		os.remove(self.fname)
-		os.rename(tmpname, self.fname)
+		try:
+			with open(self.fname, "rb") as f:
+				tmpfile.write(f.read(self.block_position)) # previous block data
+				tmpfile.write(self.block_bytes()) # new block header
+				f.seek(old_file_offset) # go to beginning stored file
+				tmpfile.write(f.read()) # read all data until EOF
+			tmpfile.close()
+		except BaseException:
+			tmpfile.close()
+			os.unlink(tmpname)
+			raise
+		utility.replace_file(tmpname, self.fname)
 
 	def explain(self):
 		out = super(SrrStoredFileBlock, self).explain()
diff --git a/rescene/utility.py b/rescene/utility.py
index a3ee11c..b703647 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -465,6 +465,21 @@ def create_temp_file_name(output_file):
 
 	return tmpfile
 
+def replace_file(src, dest):
+	"""Moves src over dest in one step, so there is never a moment without
+	a complete file at dest. When that fails, dest is left as it was and
+	src is removed."""
+	try:
+		try:
+			os.replace(src, dest)
+		except AttributeError: # Python 2
+			if os.name == "nt" and os.path.isfile(dest):
+				os.unlink(dest) # rename doesn't overwrite there
+			os.rename(src, dest)
+	except BaseException:
+		os.unlink(src)
+		raise
+
 def replace_result(src, dest):
 	"""Replaces the destination file with the source file.
 	Will not do anything when the source file doesn't exist.
-- 
2.43.0


From 23ee6a65391a3dd41f3ce0710965025bad7de3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 04/45] fix: replace_result keeps the old file when the new one
 cannot take its place

---
 rescene/utility.py | 27 +++------------------------
 1 file changed, 3 insertions(+), 24 deletions(-)

diff --git a/rescene/utility.py b/rescene/utility.py
index b703647..fb6fa85 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -495,38 +495,17 @@ def replace_result(src, dest):
 	# it is possible a temporary source file was never created
 	# (.srr question for replacement is false)
 	if os.path.isfile(src):
-		# delete previous file if it exists: user allowed to overwrite it
-		if os.path.isfile(dest):
-			try:
-				os.unlink(dest)
-			except OSError as delete_error:
-				print("Two processes are now trying to delete the same file!")
-				print(delete_error)
-				if _DEBUG:
-					print("  Destination: {0}".format(dest))
-# TODO: work in progress missing srs files					
-# 					assert False
-# 					
-# 		# wait 5 seconds for the file to disappear
-# 		for _ in range(0, 5):
-# 			if os.path.isfile(dest):
-# 				time.sleep(1)
-# 			else:
-# 				break
-# 		else:
-# 			print("Destination file still not deleted!")
-
+		# overwrite the previous file if it exists: user allowed it
 		# concurrency issue: it can fail here with a
 		# WindowsError/OSError when the other process made the file
 		try:
-			os.rename(src, dest)
+			replace_file(src, dest)
 		except OSError:
 			print("Two processes are now trying to output the same file!")
 			if _DEBUG:
 				print("  Source: {0}".format(src))
 				print("  Destination: {0}".format(dest))
-			print("This one lost... deleting temp file.")
-			os.unlink(src)
+			print("This one lost... temp file deleted.")
 			raise
 
 def calculate_crc32(file_name):
-- 
2.43.0


From ab79aafdf8dedf36504e88fb421bec3e4642598b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:49 +0000
Subject: [PATCH 05/45] fix: keep the recovery data when an SRR holds it

---
 rescene/rar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index aaaf002..3e6d0e5 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1572,12 +1572,13 @@ class RarReader(object):
 				  block_buffer.startswith(b"RR", 32) )
 				
 		# What if we have a very old SRR with the actual RR stored?
+		stored_recovery = False
 		if self._readmode == self.SRR:
 			if btype == BlockType.SrrRarFile:
 				self.recovery_blocks_removed = (flags & 
 				              SrrRarFileBlock.RECOVERY_BLOCKS_REMOVED)
 			elif is_recovery and not self.recovery_blocks_removed:
-				self._rarstream.seek(add_size, 1)
+				stored_recovery = True # the data is part of this file
 			
 		# If there is additional data in the block, decide whether
 		# we want to include it in the RarBlock we return.
@@ -1591,7 +1592,7 @@ class RarReader(object):
 			# skip the file contents, relative to current position
 			self._rarstream.seek(add_size, 1)
 		elif btype != BlockType.RarPackedFile and  \
-				not is_recovery and add_size > 0:
+				(not is_recovery or stored_recovery) and add_size > 0:
 			block_buffer += self._rarstream.read(add_size)
 
 		# If we're not returning the data, skip over it, 
-- 
2.43.0


From ef6138bd4ad88c1c0d70a26372da7b1aaa79e66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:36 +0000
Subject: [PATCH 06/45] fix: rebuild of one volume read later files from the
 wrong offset

---
 rescene/main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rescene/main.py b/rescene/main.py
index 37a4952..3304d6c 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1320,6 +1320,8 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 				or (partial_set and source_name != block.file_name)):
 				try: srcfs.close()
 				except: pass
+				if source_name != block.file_name:
+					skip_offset = 0  # it starts in this volume
 				source_name = block.file_name
 				running_crc = 0
 				try:
-- 
2.43.0


From 2d2e4d78f2a152fba5c04d328c58f29123cb53e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 07/45] fix: store files from outside the input folder without
 a path

---
 rescene/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index 3304d6c..24fa061 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1582,7 +1582,7 @@ def _store(sfile, stream, save_paths, in_folder):
 			else:
 				raise  # if this ever throws another valid error here
 			
-		if file_name[:2] == b"..":
+		if file_name.split(os.sep)[0] == os.pardir:
 			# sfile and in_folder don't match
 			# (long/short Windows path or totally different locations)
 			# don't store a path for this file!
-- 
2.43.0


From c8d3f717cff5eb688125eabf722e4ddb6e4d597e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:21 +0000
Subject: [PATCH 08/45] fix: find files to store whose name starts with two
 dots

---
 rescene/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index 24fa061..1fe4a57 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1628,7 +1628,8 @@ def _search(files, folder=""):
 	for file_name in files:
 		file_name = escape_glob(file_name)
 		# use path relative to folder if the path isn't relative or absolute 
-		if (os.path.isabs(file_name) or file_name.startswith(os.pardir)):
+		if (os.path.isabs(file_name) or
+			os.path.normpath(file_name).split(os.sep)[0] == os.pardir):
 			search_name = file_name
 		else:
 			search_name = os.path.join(folder, file_name)
-- 
2.43.0


From d2041a8e2c88f4da556fa9a3ec7b45f942bfbf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 09/45] fix: FakeFile can be positioned at its end, so an empty
 one at its start

---
 rescene/rarstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/rarstream.py b/rescene/rarstream.py
index 0d8611b..bcfc365 100644
--- a/rescene/rarstream.py
+++ b/rescene/rarstream.py
@@ -348,7 +348,7 @@ class FakeFile(io.IOBase):
 
 		if destination < 0:
 			raise IndexError("Negative index.")
-		if destination >= self._file_size:
+		if destination > self._file_size:
 			raise IndexError("Beyond end of file.")
 		self._current_position = destination
 		return self._current_position
-- 
2.43.0


From 3b71f50004aa2d74ebde34ee361b950f68667542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 10/45] fix: RarStream read nothing when the first volume has
 no data of the file

---
 rescene/rarstream.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rescene/rarstream.py b/rescene/rarstream.py
index bcfc365..2944ad4 100644
--- a/rescene/rarstream.py
+++ b/rescene/rarstream.py
@@ -87,6 +87,7 @@ class RarStream(io.IOBase):
 		except IndexError:
 			# IndexError: list index out of range
 			raise AttributeError("File not found in the archive.")
+		self.seek(0) # the first archive can have an empty part of the file
 
 	def _process(self, rar_file, packed_file_name=None, compressed=False):
 		"""Checks if the rar_file has the packed_file and adds 
-- 
2.43.0


From 266514e017f5ce389bc654e5488ea35575429599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 11/45] fix: a failing close while adding stored files leaves
 no temporary file

---
 rescene/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index 1fe4a57..feeb9bf 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -326,12 +326,12 @@ def add_stored_files(srr_file, store_files, in_folder="", save_paths=False,
 			else: #TODO: make it nicer
 				for f in store_files:
 					_store_fh(f, tmpfile)	
+		tmpfile.close()
 	except:
 		tmpfile.close()
 		os.unlink(tmpname)
 		raise
 	else:
-		tmpfile.close()
 #		if not location:
 #			# Bad SRR file or RAR file given.
 #			os.remove(tmpname)
-- 
2.43.0


From 97b245e728f76e47a4bf8bcda221e8a853a7155d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 12/45] fix: read file names that are stored as plain UTF-8

---
 rescene/rar.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index 3e6d0e5..3a8b0ec 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1051,9 +1051,15 @@ class RarPackedFileBlock(RarBlock): # 0x74
 		self._p += filename_length
 		if self.flags & RarPackedFileBlock.UTF8_FILE_NAME:
 			null = self.file_name.find(ZERO) # index zero byte
-			self.orig_filename = self.file_name[:null]
-			u = UnicodeFilename(self.orig_filename, self.file_name[null + 1:])
-			self.unicode_filename = u.decode()
+			if null == -1: # no encoded name: the name itself is UTF-8
+				self.orig_filename = self.file_name
+				self.unicode_filename = self.file_name.decode("utf-8",
+				                                              "replace")
+			else:
+				self.orig_filename = self.file_name[:null]
+				u = UnicodeFilename(self.orig_filename,
+				                    self.file_name[null + 1:])
+				self.unicode_filename = u.decode()
 		else:
 			self.orig_filename = self.file_name
 			self.unicode_filename = self.file_name.decode(DEFAULT_CHARSET, 
-- 
2.43.0


From d05d0a531b7a0e6c511dd25667520f2fa802f8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:38 +0000
Subject: [PATCH 13/45] fix: frame size of a lace with only one frame

The size of the only frame isn't stored in the lace and the byte with the
number of frames doesn't belong to the frame.
---
 resample/ebml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resample/ebml.py b/resample/ebml.py
index c7e4a51..d2842a6 100644
--- a/resample/ebml.py
+++ b/resample/ebml.py
@@ -119,7 +119,8 @@ def GetBlockFrameLengths(lace_type, data_length, stream):
 		if lace_type == EbmlLaceType.NONE:
 			frame_sizes[i] = data_length
 		elif lace_type == EbmlLaceType.FIXED:
-			frame_sizes[i] = data_length // lace_frame_count
+			# the byte with the number of frames isn't part of the frames
+			frame_sizes[i] = (data_length - bytes_consumed) // lace_frame_count
 		elif lace_type == EbmlLaceType.XIPH:
 			if (i < lace_frame_count - 1):
 				nextByte = 0xFF
@@ -134,7 +135,7 @@ def GetBlockFrameLengths(lace_type, data_length, stream):
 		else:  # EbmlLaceType.Ebml
 			bc = 0
 
-			if i == 0:
+			if i == 0 and lace_frame_count > 1:
 				frame_sizes[i], bc = GetEbmlUIntStream(stream)
 			elif i < lace_frame_count - 1:
 				# convert UInt to SInt then add to previous
-- 
2.43.0


From 79baa80e346008cc3708c9e995620fd75609f0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 14/45] fix: track numbers above 65535 were read back wrong

The four byte track number was written without the flag that says so.
---
 resample/main.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index d6874d5..2713ab8 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -440,10 +440,15 @@ class TrackData(object):
 		big_file = self.flags & self.BIG_FILE
 		data_length = 14 + len(self.signature_bytes) + (8 if big_file else 4)
 
+		# indicates how the track number must be read
+		if self.track_number >= 2 ** 16:
+			self.flags |= self.BIG_TACK_NUMBER
+		big_number = self.flags & self.BIG_TACK_NUMBER
+
 		buff = io.BytesIO()
 		buff.write(S_SHORT.pack(self.flags))
 
-		if self.track_number >= 2 ** 16:
+		if big_number:
 			data_length += 2
 			buff.write(S_LONG.pack(self.track_number))
 		else:
-- 
2.43.0


From 215c337783a9d7594d8516041d92efc26cbbab58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:20 +0000
Subject: [PATCH 15/45] fix: TypeError instead of the message that the sample
 is bad

The builtin exit() doesn't take two arguments. Callers that use no_exit
expect a ValueError.
---
 resample/srs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/srs.py b/resample/srs.py
index a43d0b7..c5401d0 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -650,7 +650,7 @@ def main(argv=None, no_exit=False):
 		if fault.endswith("Aborting"):
 			pexit(2, "Corruption detected: %s\n" % fault)
 		else:
-			exit(2, "Corruption detected: %s. Aborting.\n" % fault)
+			pexit(2, "Corruption detected: %s. Aborting.\n" % fault)
 	except fpcalc.ExecutableNotFound as err:
 		pexit(3, str(err))
 	except AttributeError as err:
-- 
2.43.0


From b7c625ecc995d8e75f3515ab81eac6911cf0e9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:04 +0000
Subject: [PATCH 16/45] fix: AVI rebuild failed for streams without data

There is no temporary file for a stream that has no data in the sample.
---
 resample/main.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 2713ab8..82d3db3 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3411,8 +3411,7 @@ def avi_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 	rr = RiffReader(RiffReadMode.SRS, path=srs)
 
 	# set cursor for temp files back at the beginning
-	for track in tracks.values():
-		track.track_file.seek(0)
+	reset_file_positions(tracks)
 
 	with open(out_file, "wb") as sample:
 		block_count = 0
@@ -3435,7 +3434,7 @@ def avi_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 						show_spinner(block_count)
 
 					track = tracks[rr.current_chunk.stream_number]
-					buff = track.track_file.read(rr.current_chunk.length)
+					buff = read_track_data(track, rr.current_chunk.length)
 					sample.write(buff)
 					crc = crc32(buff, crc) & 0xFFFFFFFF
 					rr.skip_contents()
@@ -3472,6 +3471,12 @@ def reset_file_positions(tracks):
 		#   System.NullReferenceException
 		# 18XGirls.12.08.29.Christel.And.Laura.XXX.INTERNAL.1080p.WMV-KTR
 
+def read_track_data(track, size):
+	# tracks without any data have no temporary file
+	if not track.track_file:
+		return b""
+	return track.track_file.read(size)
+
 def mkv_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 	crc = 0  # Crc32.StartValue
 	er = EbmlReader(EbmlReadMode.SRS, path=srs)
@@ -3521,7 +3526,7 @@ def mkv_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 			elif er.element_type == EbmlElementType.Block:
 				track = tracks[er.current_element.track_number]
 				# restore data from extracted tracks
-				buff = track.track_file.read(er.current_element.length)
+				buff = read_track_data(track, er.current_element.length)
 				rbh = er.current_element.raw_block_header
 				sample.write(rbh)
 				crc = crc32(rbh, crc) & 0xFFFFFFFF
-- 
2.43.0


From e7ec4a67f34a89a7afc27c18610f9afd61925e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:55 +0000
Subject: [PATCH 17/45] fix: MKV tracks stripped differently in sample and
 movie were not found

---
 resample/main.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/resample/main.py b/resample/main.py
index 82d3db3..684fcb8 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2322,6 +2322,14 @@ def _mkv_block_find(self, tracks, er, done, tracks_main):
 			sformain = track.compression_settings
 		if track2.compression_settings:
 			sforsample = track2.compression_settings
+		if sformain and sforsample:
+			# both are stripped: only the difference must be added or removed
+			if len(sforsample) < len(sformain):
+				sformain = sformain[len(sforsample):]
+				sforsample = b""
+			else:
+				sforsample = sforsample[len(sformain):]
+				sformain = b""
 
 	# it's possible the sample didn't require
 	# or contain data for all tracks in the main file
-- 
2.43.0


From 5e83355557c7112105ddaac48cc431a98c5d4949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:55 +0000
Subject: [PATCH 18/45] fix: KeyError for MKV data of a track that is not
 listed before it

---
 resample/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 684fcb8..4fa5741 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3184,14 +3184,15 @@ def _mkv_block_extract(tracks, tracks_main, er, done):
 		# System.Collections.Generic.KeyNotFoundException on .NET version
 		er.skip_contents()
 		return done
-	track_main = tracks_main[er.current_element.track_number]
+	# None when the track list comes later or doesn't have the track
+	track_main = tracks_main.get(er.current_element.track_number)
 
 	# grab compression settings
 	sforsample = b""  # settings for the sample tracks
 	sformain = b""  # settings for main tracks
 	if track.compression_settings:
 		sformain = track.compression_settings
-	if track_main.compression_settings:
+	if track_main and track_main.compression_settings:
 		sforsample = track_main.compression_settings
 	header_stripping_both_files = sformain and sforsample
 
-- 
2.43.0


From a420f5a9998a0da9d6146f19f1e87500e7f2aebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:55 +0000
Subject: [PATCH 19/45] fix: MKV attachments with the same name

---
 resample/main.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 4fa5741..83d1688 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3154,9 +3154,11 @@ def mkv_extract_sample_streams(self, tracks, movie):
 				tracks_main[current_track_nb].compression_settings = elm_content
 		elif er.element_type == EbmlElementType.AttachedFileName:
 			current_attachment = er.read_contents()
-			if current_attachment not in attachments:
-				att = AttachmentData(current_attachment)
-				attachments[current_attachment] = att
+			# attachments can have the same name
+			while current_attachment in attachments:
+				current_attachment += b".dupe"
+			att = AttachmentData(current_attachment)
+			attachments[current_attachment] = att
 		elif er.element_type == EbmlElementType.AttachedFileData:
 			attachment = attachments[current_attachment]
 			attachment.size = er.current_element.length
@@ -3167,6 +3169,8 @@ def mkv_extract_sample_streams(self, tracks, movie):
 				attachment.attachment_file = tempfile.TemporaryFile()
 				attachment.attachment_file.write(er.read_contents())
 				attachment.attachment_file.seek(0)
+			else:
+				er.skip_contents()
 		else:
 			er.skip_contents()
 
@@ -3494,6 +3498,7 @@ def mkv_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 
 	with open(out_file, "wb") as sample:
 		current_attachment = None
+		used_attachments = set()
 		cluster_count = 0
 		while er.read():
 			# the ReSample element is the only part of the SRS file
@@ -3522,6 +3527,10 @@ def mkv_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 				current_attachment = er.read_contents()
 				sample.write(current_attachment)
 				crc = crc32(current_attachment, crc) & 0xFFFFFFFF
+				# attachments can have the same name
+				while current_attachment in used_attachments:
+					current_attachment += b".dupe"
+				used_attachments.add(current_attachment)
 			elif er.element_type == EbmlElementType.AttachedFileData:
 				attachment = attachments[current_attachment]
 				# restore data from extracted attachments
-- 
2.43.0


From a9ea5bbc2d55dc96e9644691def5fedaef9edc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:50 +0000
Subject: [PATCH 20/45] fix: a failing sample rebuild leaves no temporary file

---
 resample/srs.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/resample/srs.py b/resample/srs.py
index c5401d0..2b87ffa 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -511,8 +511,14 @@ def main(argv=None, no_exit=False):
 			
 			# 6) Recreate the sample
 			out_file = create_temp_file_name(result_file)
-			sfile = sample.rebuild_sample(srs_data, tracks, attachments,
-										  srs, out_file)
+			try:
+				sfile = sample.rebuild_sample(srs_data, tracks, attachments,
+				                              srs, out_file)
+			except:
+				# leave no half-made file behind
+				if os.path.isfile(out_file):
+					os.unlink(out_file)
+				raise
 			if sfile and sfile.crc32 == srs_data.crc32:
 				show_attempt_info(sfile)
 			elif any(offs for tr in sample.cut_data.values() for offs in tr):
-- 
2.43.0


From f976d21cdfa29076795f22ab82861adf074ef4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 21/45] fix: stripped MKV header longer than the rest of the
 signature

---
 resample/main.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 83d1688..e9e0e19 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2343,15 +2343,16 @@ def _mkv_block_find(self, tracks, er, done, tracks_main):
 		for i in range(len(er.current_element.frame_lengths)):
 			flength = (er.current_element.frame_lengths[i] +
 			           len(sforsample) - len(sformain))
+			# the frame like it is in the sample: stored settings from main
+			# video added, those from the sample removed
+			frame = sforsample + buff[offset + len(sformain):
+			                offset + er.current_element.frame_lengths[i]]
 			# see if a false positive match was detected
 			if (0 < len(track.check_bytes) < len(track.signature_bytes)):
 				lcb = min(len(track.signature_bytes),
 				          flength + len(track.check_bytes))
 				check_bytes = track.check_bytes  # from sample
-				check_bytes += sforsample  # stored settings from main video
-				check_bytes += buff[offset + len(sformain):
-									offset + len(sformain) + lcb -
-									len(track.check_bytes) - len(sforsample)]
+				check_bytes += frame[:lcb - len(track.check_bytes)]
 
 				if track.signature_bytes.startswith(check_bytes):
 					track.check_bytes = check_bytes
@@ -2367,9 +2368,7 @@ def _mkv_block_find(self, tracks, er, done, tracks_main):
 
 			if not track.check_bytes:  # always entered upon start too
 				lcb = min(len(track.signature_bytes), flength)
-				check_bytes = sforsample
-				check_bytes += buff[offset + len(sformain):
-				                    offset + len(sformain) + lcb - len(sforsample)]
+				check_bytes = frame[:lcb]
 				if track.signature_bytes.startswith(check_bytes):
 					track.check_bytes = check_bytes
 					track.match_offset = (er.current_element.element_start_pos
@@ -2412,15 +2411,14 @@ def _extra_offsets_x265_bug(self, er, track, sforsample, sformain):
 	for i in range(len(er.current_element.frame_lengths)):
 		flength = (er.current_element.frame_lengths[i] +
 				   len(sforsample) - len(sformain))
+		frame = sforsample + buff[offset + len(sformain):
+			offset + er.current_element.frame_lengths[i]]
 		# see if a false positive match was detected
 		if (0 < len(track.check_bytes_bug) < len(track.signature_bytes)):
 			lcb = min(len(track.signature_bytes),
 					  flength + len(track.check_bytes_bug))
 			check_bytes = track.check_bytes_bug  # from sample
-			check_bytes += sforsample  # stored settings from main video
-			check_bytes += buff[offset + len(sformain):
-								offset + len(sformain) + lcb -
-								len(track.check_bytes_bug) - len(sforsample)]
+			check_bytes += frame[:lcb - len(track.check_bytes_bug)]
 
 			if track.signature_bytes.startswith(check_bytes):
 				track.check_bytes_bug = check_bytes
@@ -2429,9 +2427,7 @@ def _extra_offsets_x265_bug(self, er, track, sforsample, sformain):
 
 		if not track.check_bytes_bug:
 			lcb = min(len(track.signature_bytes), flength)
-			check_bytes = sforsample
-			check_bytes += buff[offset + len(sformain):
-								offset + len(sformain) + lcb - len(sforsample)]
+			check_bytes = frame[:lcb]
 			if track.signature_bytes.startswith(check_bytes):
 				track.check_bytes_bug = check_bytes
 				match_offset = (er.current_element.element_start_pos
-- 
2.43.0


From ce3efc1ae07df81c5418153b63c0bc4eb27b5e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:49 +0000
Subject: [PATCH 22/45] fix: MP4 data was searched in the first file of a RAR
 archive instead of the video

---
 resample/main.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index e9e0e19..568b8f2 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2438,12 +2438,13 @@ def _extra_offsets_x265_bug(self, er, track, sforsample, sformain):
 				track.check_bytes_bug = b""
 		offset += er.current_element.frame_lengths[i]
 
-def mp4_find_sample_stream(track, mtrack, main_mp4_file):
+def mp4_find_sample_stream(track, mtrack, main_mp4_file,
+		archived_file_name=""):
 	"""Check if the track from the sample exist in the main file. This is
 	done based on the track signature alone, not the whole data stream."""
 	mtrack = mp4_add_track_stream(mtrack)
 	# open stream here so we open and close the mp4 file just once
-	mtrack.trackstream.stream = open_main(main_mp4_file)
+	mtrack.trackstream.stream = open_main(main_mp4_file, archived_file_name)
 
 	data = mtrack.trackstream.read(len(track.signature_bytes))
 # 	from binascii import hexlify
@@ -2610,7 +2611,8 @@ def mp4_find_sample_streams(self, tracks, main_mp4_file):
 	for mtrack in mtracks.values():
 		try:
 			track = tracks[mtrack.track_number]
-			track = mp4_find_sample_stream(track, mtrack, main_mp4_file)
+			track = mp4_find_sample_stream(track, mtrack, main_mp4_file,
+			                               self.archived_file_name)
 # 			print(track)
 # 			print(mtrack)
 			track.main_track = mtrack
@@ -3251,22 +3253,24 @@ def mp4_extract_sample_streams(self, tracks, main_mp4_file):
 
 	for track_nb, track in tracks.items():
 		mtrack = mtracks[track_nb]
-		track = mp4_extract_sample_stream(track, mtrack, main_mp4_file)
+		track = mp4_extract_sample_stream(track, mtrack, main_mp4_file,
+		                                  self.archived_file_name)
 		tracks[track_nb] = track
 
 	return tracks, {}  # attachments
 
-def open_main(big_file):
+def open_main(big_file, archived_file_name=""):
 	if utility.is_rar(big_file):
-		return rarstream.RarStream(big_file)
+		return rarstream.RarStream(big_file, archived_file_name)
 	else:
 		return open(big_file, "rb")
 
-def mp4_extract_sample_stream(track, mtrack, main_mp4_file):
+def mp4_extract_sample_stream(track, mtrack, main_mp4_file,
+		archived_file_name=""):
 	"""Can throw InvalidMatchOffset"""
 	track.track_file = tempfile.TemporaryFile()
 	mtrack = mp4_add_track_stream(mtrack)
-	mtrack.trackstream.stream = open_main(main_mp4_file)
+	mtrack.trackstream.stream = open_main(main_mp4_file, archived_file_name)
 
 	mtrack.trackstream.seek(track.match_offset)
 	track.track_file.write(mtrack.trackstream.read(track.data_length))
-- 
2.43.0


From 270a2d0ab2456bbd5e363ac3afc542feb1539df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:20 +0000
Subject: [PATCH 23/45] fix: MP4 tracks without data made checking and
 rebuilding fail

---
 resample/main.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index 568b8f2..fa91379 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2442,6 +2442,8 @@ def mp4_find_sample_stream(track, mtrack, main_mp4_file,
 		archived_file_name=""):
 	"""Check if the track from the sample exist in the main file. This is
 	done based on the track signature alone, not the whole data stream."""
+	if not track.signature_bytes or not mtrack.chunk_offsets:
+		return track  # no data to look for, or none to look in
 	mtrack = mp4_add_track_stream(mtrack)
 	# open stream here so we open and close the mp4 file just once
 	mtrack.trackstream.stream = open_main(main_mp4_file, archived_file_name)
@@ -3252,6 +3254,8 @@ def mp4_extract_sample_streams(self, tracks, main_mp4_file):
 	                      archived_file_name=self.archived_file_name)
 
 	for track_nb, track in tracks.items():
+		if not track.data_length:
+			continue  # track without data
 		mtrack = mtracks[track_nb]
 		track = mp4_extract_sample_stream(track, mtrack, main_mp4_file,
 		                                  self.archived_file_name)
@@ -3570,7 +3574,8 @@ def mp4_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 
 	tracks = profile_mp4_srs(srs, tracks)
 	for track in tracks.values():
-		track.track_file.seek(0)
+		if track.track_file:
+			track.track_file.seek(0)
 		track = mp4_add_track_stream(track)  # for the sorting later on
 
 	mr = MovReader(MovReadMode.SRS, path=srs)
@@ -3591,6 +3596,8 @@ def mp4_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 				# order the interleaved chunks
 				for (chunk, track_nb) in order_chunks(tracks):
 					track = tracks[track_nb]
+					if not track.track_file:
+						continue  # no data
 					buff = track.track_file.read(sum(chunk.samples))
 					# write all the stream data
 					sample.write(buff)
@@ -3636,6 +3643,9 @@ def profile_mp4_srs(srs, tracks):  # XXX: copy paste edit from other function
 		if atype in (b"tkhd",):
 			# grab track id
 			(track_id,) = BE_LONG.unpack_from(data, 12)
+			if track_id not in tracks:  # track without data
+				tracks[track_id] = TrackData()
+				tracks[track_id].track_number = track_id
 			current_track = tracks[track_id]
 
 			# initialization
-- 
2.43.0


From 13f09b75d4da53de4fb851a4e28e98cfbd57cac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:36 +0000
Subject: [PATCH 24/45] fix: MP4 samples with several mdat atoms were rebuilt
 wrong

---
 resample/main.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index fa91379..8287d36 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3578,6 +3578,9 @@ def mp4_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 			track.track_file.seek(0)
 		track = mp4_add_track_stream(track)  # for the sorting later on
 
+	mdat_count = mp4_count_mdat(srs)
+	# order the interleaved chunks
+	chunks = order_chunks(tracks)
 	mr = MovReader(MovReadMode.SRS, path=srs)
 
 	with open(out_file, "wb") as sample:
@@ -3587,14 +3590,18 @@ def mp4_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 				mr.skip_contents()
 				continue
 
+			end_offset = sample.tell() + mr.current_atom.size
 			sample.write(mr.current_atom.raw_header)
 			crc = crc32(mr.current_atom.raw_header, crc) & 0xFFFFFFFF
 
 			if mr.atom_type == b"mdat":
 				mr.move_to_child()
+				mdat_count -= 1
 
-				# order the interleaved chunks
-				for (chunk, track_nb) in order_chunks(tracks):
+				# the last one has everything that is left
+				while chunks and (mdat_count == 0 or
+				                  chunks[0][0].chunk_offset < end_offset):
+					(chunk, track_nb) = chunks.pop(0)
 					track = tracks[track_nb]
 					if not track.track_file:
 						continue  # no data
@@ -3614,6 +3621,19 @@ def mp4_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 	ofile.crc32 = crc & 0xFFFFFFFF
 	return ofile
 
+def mp4_count_mdat(srs):
+	"""The amount of atoms the stream data is divided over"""
+	count = 0
+	mr = MovReader(MovReadMode.SRS, path=srs)
+	while mr.read():
+		if mr.atom_type == b"mdat":
+			count += 1
+			mr.move_to_child()
+		else:
+			mr.skip_contents()
+	mr.close()
+	return count
+
 def order_chunks(tracks):
 	all_chunks = []
 	for track in tracks.values():
-- 
2.43.0


From 7303dedb9938ee4467897b97cdbc31d57a17dbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:48 +0000
Subject: [PATCH 25/45] fix: IndexError for WMV movies with a stream that is
 not in the sample

---
 resample/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index 8287d36..4c8f75f 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2691,7 +2691,7 @@ def wmv_find_sample_streams(self, tracks, main_wmv_file):
 						# to see if it's the start of a new match
 						# (probably will never happen with AVI
 						# but it does in MKV, so just in case...)
-						if not track.check_bytes:
+						if track.signature_bytes and not track.check_bytes:
 							payload_bytes = payload.data
 
 							search_byte = track.signature_bytes[0]
-- 
2.43.0


From 86a89044a63a4967042f87ac425812fde1195391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:48 +0000
Subject: [PATCH 26/45] fix: WMV rebuild failed for streams without data

---
 resample/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index 4c8f75f..5957fd9 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3782,7 +3782,7 @@ def wmv_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 						assert payload.header_size == len(payload.header_data)
 
 						# 2) payload data
-						buff = track.track_file.read(payload.data_length)
+						buff = read_track_data(track, payload.data_length)
 						sample.write(buff)
 						crc = crc32(buff, crc) & 0xFFFFFFFF
 
-- 
2.43.0


From 0022f952aa611cd341d93601a5b31f47e3974300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:05 +0000
Subject: [PATCH 27/45] fix: FLAC files with ID3 tags could not be rebuilt

---
 resample/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index 5957fd9..46bba21 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3827,7 +3827,7 @@ def flac_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 				flac.write(b"fLaC")
 				crc = crc32(b"fLaC", crc)
 				fr.skip_contents()
-			elif (fr.block_type in bytearray(b"stu") and
+			elif (fr.block_type in (ord("s"), ord("t"), ord("u")) and
 					srs_flac_blocks <= 3):
 				srs_flac_blocks += 1
 				fr.skip_contents()
-- 
2.43.0


From 65eabc9a60dffc7efc0950eb0c456e57af9fc146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:05 +0000
Subject: [PATCH 28/45] fix: a failed retag left its temporary file behind

---
 resample/srs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resample/srs.py b/resample/srs.py
index 2b87ffa..74c9698 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -624,6 +624,7 @@ def main(argv=None, no_exit=False):
 						if m == r:
 							# always keep original track on retag failure!
 							print("Music track not deleted!")
+							os.unlink(out_file)
 						else:
 							replace_result(out_file, result_file)
 							os.unlink(result_file)
-- 
2.43.0


From 950897d7aa4eda8fa739704c9af37e991e750c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:02 +0000
Subject: [PATCH 29/45] fix: MP3 music after an ID3 tag and junk was taken from
 the wrong place

---
 resample/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index 46bba21..6053bc5 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2822,7 +2822,7 @@ def mp3_match_signature(track, block, mr):
 		data = mr.read_part(size, boffset)
 		found_offset = data.find(track.signature_bytes)
 		if found_offset > -1:
-			track.match_offset = boffset + found_offset
+			track.match_offset = block.start_pos + boffset + found_offset
 			track.match_length = min(track.data_length, block.size)
 			break
 		boffset += (batchsize - SIG_SIZE + 1)
-- 
2.43.0


From 5a058451466cd130970f84116130fe6ddf731dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:02 +0000
Subject: [PATCH 30/45] fix: MP3 SRS files with a Lyrics3 tag could not be read

---
 resample/mp3.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resample/mp3.py b/resample/mp3.py
index c498dcf..7498747 100644
--- a/resample/mp3.py
+++ b/resample/mp3.py
@@ -153,13 +153,15 @@ class Mp3Reader(object):
 		if end_meta_data_offset - 9 >= 0:
 			self._mp3_stream.seek(end_meta_data_offset - 9, os.SEEK_SET)
 			if b"LYRICSEND" == self._mp3_stream.read(9):
-				self._mp3_stream.seek(end_meta_data_offset - 5100, os.SEEK_SET)
-				lyrics_data = self._mp3_stream.read(5100)
+				max_start = max(0, end_meta_data_offset - 5100)
+				self._mp3_stream.seek(max_start, os.SEEK_SET)
+				lyrics_data = self._mp3_stream.read(
+				                         end_meta_data_offset - max_start)
 				index = lyrics_data.find(b"LYRICSBEGIN")
 				if index == -1:
 					raise InvalidDataException(
 							"Unable to find start of LyricsV1 block")
-				start_block = end_meta_data_offset - 5100 + index
+				start_block = max_start + index
 				lyrics3_block = Block(end_meta_data_offset - start_block,
 				                      "LYRICS", start_block)
 				self.blocks.append(lyrics3_block)
-- 
2.43.0


From e64e02dddf9a1a6359a81e29877b978a162bf6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:56 +0000
Subject: [PATCH 31/45] fix: -o with only a file name was refused

---
 resample/srs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/srs.py b/resample/srs.py
index 74c9698..30ac763 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -323,7 +323,7 @@ def main(argv=None, no_exit=False):
 				else:
 					samp = os.path.basename(sample_file).rsplit(".", 1)
 					srs_name = os.path.join(out_folder, samp[0] + ext)
-			srsdir = os.path.dirname(srs_name)
+			srsdir = os.path.dirname(os.path.abspath(srs_name))
 			if not os.path.exists(srsdir):
 				pexit(1, "Output directory does not exist: %s\n" %
 				         srsdir, False)
-- 
2.43.0


From 80ce3af18c4c9e1fd6a368d46dbb9e3f7d9c27b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:56 +0000
Subject: [PATCH 32/45] fix: a failing SRS creation left a temporary file

---
 resample/srs.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/resample/srs.py b/resample/srs.py
index 30ac763..f71d017 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -363,8 +363,14 @@ def main(argv=None, no_exit=False):
 
 			srs_name_tmp = create_temp_file_name(srs_name)
 
-			sample.create_srs(tracks, sample_file_data, sample_file,
-			                  srs_name_tmp, options.big_file)
+			try:
+				sample.create_srs(tracks, sample_file_data, sample_file,
+				                  srs_name_tmp, options.big_file)
+			except:
+				# leave no half-made file behind
+				if os.path.isfile(srs_name_tmp):
+					os.unlink(srs_name_tmp)
+				raise
 
 			replace_result(srs_name_tmp, srs_name)
 
-- 
2.43.0


From 3eaf5a5ea1d19f4563eb7808b4455c6030cf4d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:56 +0000
Subject: [PATCH 33/45] fix: a failing sample rebuild removed the file it
 should replace

---
 resample/srs.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/resample/srs.py b/resample/srs.py
index f71d017..561e1ab 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -622,8 +622,7 @@ def main(argv=None, no_exit=False):
 				else:
 					# delete reconstruction failure
 					if not is_music:
-						replace_result(out_file, result_file)
-						os.unlink(result_file)
+						os.unlink(out_file)
 					elif is_music:
 						m = os.path.normpath(os.path.realpath(movie))
 						r = os.path.normpath(os.path.realpath(result_file))
@@ -632,8 +631,7 @@ def main(argv=None, no_exit=False):
 							print("Music track not deleted!")
 							os.unlink(out_file)
 						else:
-							replace_result(out_file, result_file)
-							os.unlink(result_file)
+							os.unlink(out_file)
 
 				msg = "\nRebuild failed for sample: %s\n" % srs_data.name
 				pexit(5, msg, False)
-- 
2.43.0


From 66caaff77008e540e5002842d9bc9cfcb0737f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:19 +0000
Subject: [PATCH 34/45] fix: the sample name in an SRS could place the sample
 outside the output folder

---
 resample/srs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resample/srs.py b/resample/srs.py
index 561e1ab..fbc7ed5 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -498,7 +498,9 @@ def main(argv=None, no_exit=False):
 					pexit(4, msg, False)
 
 			# 5) Ask user for overwrite permission
-			result_file = os.path.join(out_folder, srs_data.name)
+			# only the name: never outside of the output folder
+			result_file = os.path.join(out_folder,
+			                           os.path.basename(srs_data.name))
 			if not can_overwrite(result_file, options.always_yes):
 				pexit(1, "\nOperation aborted.\n", False)
 
-- 
2.43.0


From 17d882b33249cd64c218a11798ddad8a8ae08b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:15 +0000
Subject: [PATCH 35/45] fix: merging SRR files into one of them lost its stored
 files

---
 rescene/main.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index feeb9bf..4452488 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -431,7 +431,8 @@ def merge_srrs(srr_files, output_file, application_name=None):
 				if not application_name or application_name == "":
 					application_name = block.appname
 			elif block.rawtype == BlockType.SrrStoredFile:
-				stored_files.append(block)
+				# the result can take the place of one of the SRR files
+				stored_files.append((block, block.srr_data()))
 			else:
 				other_blocks.append(block)
 			
@@ -440,9 +441,9 @@ def merge_srrs(srr_files, output_file, application_name=None):
 		new.write(SrrHeaderBlock(appname=application_name).block_bytes())
 		
 		# all stored files in the beginning after the header
-		for sblock in stored_files:
+		for sblock, data in stored_files:
 			new.write(sblock.block_bytes())
-			new.write(sblock.srr_data())
+			new.write(data)
 		
 		# everything else in the same order as the original file
 		for block in other_blocks:
-- 
2.43.0


From 72aa06e521b352f5631adfc19c6aed964b88427e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:42 +0000
Subject: [PATCH 36/45] fix: yEnc lines that begin with two dots lost one of
 them

---
 usenet/yenc.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/usenet/yenc.py b/usenet/yenc.py
index 7116e4c..becd0b0 100644
--- a/usenet/yenc.py
+++ b/usenet/yenc.py
@@ -222,10 +222,7 @@ def strip(data):
 	# http://www.yenc.org/develop.htm
 	# the NNTP-protocol requires to double a dot in the first colum
 	# when a line is sent - and to detect a double dot (and remove one of them)
-	# when receiving a line.
-	for i in range(len(data)):
-		if data[i].startswith(b'..'):
-			data[i] = data[i][1:]
+	# when receiving a line. nntplib (and body_little) already did the latter.
 	return data
 
 """
-- 
2.43.0


From b007d14bbed6f1f24cf025d37e5af8d414e51112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:59 +0000
Subject: [PATCH 37/45] fix: the SRS of a WMV sample that is cut before its
 data couldn't be used

---
 resample/main.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/resample/main.py b/resample/main.py
index 6053bc5..6f38c82 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -1433,6 +1433,7 @@ def profile_wmv(wmv_data):  # FileData object
 	tracks = odict()
 
 	meta_length = 0
+	has_data = False
 	wmv_data.crc32 = 0x0  # start value CRC
 	ar = AsfReader(AsfReadMode.Sample, wmv_data.name)
 	while ar.read():
@@ -1447,6 +1448,7 @@ def profile_wmv(wmv_data):  # FileData object
 		if oguid in (GUID_HEADER_OBJECT):
 			ar.move_to_child()
 		elif oguid == GUID_DATA_OBJECT:
+			has_data = True
 			padding_amount = 0
 			padding_bytes = b""
 			i = 16 + 8 + 16
@@ -1539,6 +1541,11 @@ def profile_wmv(wmv_data):  # FileData object
 				      sep='\n', file=sys.stderr)
 	ar.close()
 
+	if not has_data:
+		# the SRS would have no place for the file and track information
+		raise IncompleteSample("Error: No stream data found.\n"
+			"       The sample is likely corrupted or incomplete.\n")
+
 	wmv_data.other_length = meta_length
 	remove_spinner()
 	return tracks
-- 
2.43.0


From 3c0622f64e577f66a781f6fbb12237827a658132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:32 +0000
Subject: [PATCH 38/45] fix: the srr tool deleted an existing SRR file when
 making a new one failed

---
 rescene/srr.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rescene/srr.py b/rescene/srr.py
index f759ef6..8dab354 100644
--- a/rescene/srr.py
+++ b/rescene/srr.py
@@ -363,6 +363,7 @@ def create_srr(options, infolder, infiles, working_dir):
 # 	print("infiles: %s" % infiles, file=sys.stderr)
 # 	print("infolder: %s" % infolder, file=sys.stderr)
 # 	print("store files: %s" % store_files, file=sys.stderr)
+	tmp_srr_name = ""
 	try:
 		tmp_srr_name = create_temp_file_name(srr_name)
 		success = rescene.create_srr(srr_name, infiles, infolder,
@@ -384,17 +385,16 @@ def create_srr(options, infolder, infiles, working_dir):
 		# ValueError: The file is too small.
 		# EmptySfv: can't create a useful file in this case
 		# FileNotFound: Linux file systems are case sensitive
-
-		# make sure there is no broken SRR file/temporary file left
-		try:
-			os.unlink(srr_name)
-		except:
-			pass
 		mthread.done = True
 		mthread.join()
 		print(err, file=sys.stderr)
 		print("SRR creation failed. Aborting.", file=sys.stderr)
 		return 1
+	finally:
+		# make sure there is no broken temporary file left
+		# (an existing SRR file must stay when creation fails)
+		if os.path.isfile(tmp_srr_name):
+			os.unlink(tmp_srr_name)
 
 def main(argv=None):
 	global parser
-- 
2.43.0


From 9f2c6c0a1df2741f91626829432b992060db2618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:00 +0000
Subject: [PATCH 39/45] fix: an unreadable RAR file ended creation with an
 AttributeError instead of its error

---
 rescene/main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rescene/main.py b/rescene/main.py
index 4452488..048bdba 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -667,6 +667,8 @@ def _rarreader_usenet(rarfile, read_retries=7):
 		
 		# reading from usenet fails somewhere
 		# keep redownloading
+		if not hasattr(rarfile, "init_data"):
+			raise  # a file on disk: reading it again can't help
 		stop = 0
 		rarfile.init_data(server_nb=stop)
 		while True:
-- 
2.43.0


From 0eb3023e0b7b2c8602acf6c4045d464eda20c22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:00 +0000
Subject: [PATCH 40/45] fix: a file with the same name but other capitals was
 stored instead of the right one

---
 rescene/utility.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rescene/utility.py b/rescene/utility.py
index fb6fa85..35c4e0b 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -538,7 +538,8 @@ def capitalized_fn(afile):
 	# on Linux it could not when the capitals don't match (file name from sfv)
 	inputfn = os.path.basename(afile)
 	inputdir = os.path.dirname(afile) or os.curdir
-	for cfile in os.listdir(inputdir):
+	# (a file with exactly this name goes before others on Linux)
+	for cfile in sorted(os.listdir(inputdir), key=lambda n: n != inputfn):
 		if (cfile.lower() == inputfn.lower() and
 		    os.path.isfile(os.path.join(inputdir, cfile))):
 			exact = os.path.join(inputdir, cfile)
-- 
2.43.0


From a144e0cf8cc4da758a9a2dab979faea0c1debfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:00 +0000
Subject: [PATCH 41/45] fix: pyrescene stored the half of a file that could not
 be copied completely

---
 bin/pyrescene.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 0ccdae5..d19e8a8 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -630,6 +630,8 @@ def copy_to_working_dir(working_dir, release_dir, copy_file):
 		print("Could not copy %s." % copy_file)
 		print("Reason: %s" % e)
 		log = True
+		if os.path.isfile(dest_file):
+			os.unlink(dest_file)  # never store half of a file
 		if "[Errno 2] No such file or directory" in str(e) and os.name == "nt":
 			print("Trying again!")
 			try:
-- 
2.43.0


From 99e8511065470493e42f021295e8592a6c2dfbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:00 +0000
Subject: [PATCH 42/45] fix: pyrescene left its temporary file behind when it
 failed or was aborted

---
 bin/pyrescene.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index d19e8a8..ef5ed79 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -856,6 +856,23 @@ def mk_long_dir(destination):
 				print(e)
 
 def generate_srr(reldir, working_dir, options, mthread):
+	relname = os.path.split(reldir)[1]
+	if options.srr_in_reldir:
+		srr_directory = reldir
+	else:
+		srr_directory = options.output_dir
+	srr = os.path.join(srr_directory, relname + ".srr")
+	tmp_srr_name = create_temp_file_name(srr)
+	try:
+		return generate_release_srr(reldir, working_dir, options, mthread,
+		                            srr, tmp_srr_name)
+	finally:
+		# no failure or abort leaves the unfinished SRR behind
+		if os.path.isfile(tmp_srr_name):
+			os.unlink(tmp_srr_name)
+
+def generate_release_srr(reldir, working_dir, options, mthread,
+                         srr, tmp_srr_name):
 	if os.listdir(working_dir) != []:
 		logging.warning("Failed to clean temp dir: {0}".format(working_dir))
 		# Cleaning can fail with PyPy and long dirs: create new working dir
@@ -869,12 +886,6 @@ def generate_srr(reldir, working_dir, options, mthread):
 		print(epath)  # chars like \u2013 possible
 		logging.warning("Unexpected character in path: {0}".format(epath))
 	relname = os.path.split(reldir)[1]
-	if options.srr_in_reldir:
-		srr_directory = reldir
-	else:
-		srr_directory = options.output_dir
-	srr = os.path.join(srr_directory, relname + ".srr")
-	tmp_srr_name = create_temp_file_name(srr)
 
 	# speedup: don't do stuff when we don't overwrite an existing SRR anyway
 	if options.always_no and os.path.exists(srr):
@@ -904,11 +915,6 @@ def generate_srr(reldir, working_dir, options, mthread):
 			except OSError:
 				pass
 			return False
-		except KeyboardInterrupt as e:
-			# always deletes the temp file here
-			if e.message != "DONT_DELETE":
-				os.unlink(tmp_srr_name)
-			raise
 		except FileNotFound as e:
 			# rescene doesn't leave a partially finished file
 			try:
-- 
2.43.0


From 46507ee6ff4b3f21a6d8fc3715a6585daca71126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:56 +0000
Subject: [PATCH 43/45] fix: pyrescene failed when a file was excluded both by
 name and by the regular expression

---
 bin/pyrescene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index ef5ed79..adcae26 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -1243,7 +1243,7 @@ def generate_release_srr(reldir, working_dir, options, mthread,
 		if os.path.basename(cfile) in options.skip_list:
 			print("Skipped over stored file: %s" % os.path.basename(cfile))
 			copied_files.remove(cfile)
-		if options.skip_regex:
+		elif options.skip_regex:
 			retestpath = os.path.relpath(cfile, working_dir)
 			if skipre.match(retestpath):
 				copied_files.remove(cfile)
-- 
2.43.0


From 14906c8705f8ea692dd875fc51b6a87ebfb8d826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:54 +0000
Subject: [PATCH 44/45] fix: pyrescene lost one of two samples with the same
 name but another extension

---
 bin/pyrescene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index adcae26..b3b7410 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -984,7 +984,7 @@ def generate_release_srr(reldir, working_dir, options, mthread,
 	# .mkv and .m2ts samples could have the same .srs name: prevent this
 	same_srs_name = []
 	rbase = lambda x: os.path.relpath(x, reldir).rsplit(".", 1)[0]
-	for (name, group) in itertools.groupby(map(rbase, media_files)):
+	for (name, group) in itertools.groupby(sorted(map(rbase, media_files))):
 		if len(list(group)) > 1:
 			same_srs_name.append(name)
 
-- 
2.43.0


From e1842a6102632af7cdfd5b4a3c765d28574fb905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:56 +0000
Subject: [PATCH 45/45] fix: a broken proof RAR stopped pyrescene from making
 the SRR

---
 bin/pyrescene.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index b3b7410..20125fe 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -353,8 +353,8 @@ def has_stored_proof_ext(proof_rarfile):
 			if (block.rawtype == BlockType.RarPackedFile and
 				block.file_name[-4:].lower() in PROOF_IMAGE_EXTS):
 					return True
-	except ValueError as e:
-		# No RAR5 support yet
+	except (ValueError, EnvironmentError) as e:
+		# No RAR5 support yet, or a broken RAR
 		logging.warning("{0}: {1}".format(str(e), proof_rarfile))
 
 	return False
@@ -508,8 +508,8 @@ def remove_unwanted_sfvs(sfv_list, release_dir):
 									skip = True
 								else:
 									skip = False
-					except ValueError as e:
-						# No RAR5 support yet
+					except (ValueError, EnvironmentError) as e:
+						# No RAR5 support yet, or a broken RAR
 						logging.warning("{0}: {1}".format(str(e), rar))
 						skip = True
 					if skip:
-- 
2.43.0

