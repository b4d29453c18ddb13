From f434bd579c5a1b4cb6104744201b276a4a930424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 01/56] fix: Interrupted index creations or updates must not
 lead to empty or corrupted mounts

---
 core/ratarmountcore/SQLiteIndex.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 015f928..a0f1f5a 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -484,13 +484,15 @@ class SQLiteIndex:
         connection.commit()
 
     def store_metadata(self, metadata: AnyStr, filePath: Optional[AnyStr] = None) -> None:
-        self._store_versions_metadata()
         if filePath is not None:
             self._store_file_metadata(filePath)
         elif self.archiveFilePath:
             self._store_file_metadata(self.archiveFilePath)
         self.store_metadata_key_value('arguments', metadata)
         self.store_metadata_key_value('backendName', self.backendName)
+        # Store versions last because a missing index version is used to recognize interrupted index creations.
+        self._store_versions_metadata()
+        self.get_connection().commit()
 
     def drop_metadata(self):
         self.get_connection().executescript("DELETE FROM metadata; DELETE FROM versions;")
@@ -601,7 +603,8 @@ class SQLiteIndex:
 
         try:
             connection = SQLiteIndex._open_sql_db(path)
-            connection.executescript('CREATE TABLE "files" ( "path" VARCHAR(65535) NOT NULL );')
+            # Do not name this table "files" or else it would be mistaken for an index if we get killed right here.
+            connection.executescript('CREATE TABLE "writetest" ( "path" VARCHAR(65535) NOT NULL );')
             connection.commit()
             connection.close()
             return True
@@ -624,10 +627,12 @@ class SQLiteIndex:
             # Locking mode exclusive leads to a measurable speedup. E.g., find on 2k recursive files tar
             # improves from ~1s to ~0.4s!
             # https://blog.devart.com/increasing-sqlite-performance.html
+            # Do not turn off the rollback journal! It has no measurable cost, but without it, an index will be
+            # corrupted undetectably when ratarmount is killed or the disk fills up while a transaction is written.
             """
             PRAGMA LOCKING_MODE = EXCLUSIVE;
             PRAGMA TEMP_STORE = MEMORY;
-            PRAGMA JOURNAL_MODE = OFF;
+            PRAGMA JOURNAL_MODE = DELETE;
             PRAGMA SYNCHRONOUS = OFF;
             """
         )
@@ -639,6 +644,11 @@ class SQLiteIndex:
             sqlConnection.setconfig(sqlite3.SQLITE_DBCONFIG_DQS_DML, enable_double_quotes)
         return sqlConnection
 
+    @staticmethod
+    def _create_tables(connection: sqlite3.Connection) -> None:
+        # Create all tables or none because incomplete indexes are recognized by the temporary tables being there.
+        connection.executescript(f"BEGIN;\n{SQLiteIndex._CREATE_TABLES}\nCOMMIT;")
+
     @staticmethod
     def _create_sql_db(indexFilePath: Optional[str]) -> tuple[str, sqlite3.Connection]:
         indexFilePath = indexFilePath or ':memory:'
@@ -655,7 +665,7 @@ class SQLiteIndex:
                 "conflict with our database schema. Please specify --recreate-index to overwrite the existing database."
             )
 
-        sqlConnection.executescript(SQLiteIndex._CREATE_TABLES)
+        SQLiteIndex._create_tables(sqlConnection)
 
         return indexFilePath, sqlConnection
 
@@ -734,7 +744,7 @@ class SQLiteIndex:
         t0 = timer()
 
         # Ensure that all tables exist. This is necessary for TARs detected as being appended to.
-        self.get_connection().executescript(SQLiteIndex._CREATE_TABLES)
+        SQLiteIndex._create_tables(self.get_connection())
         create_index()
         self.finalize()
 
@@ -1286,6 +1296,11 @@ class SQLiteIndex:
             if 'filestmp' in tables or 'parentfolders' in tables:
                 raise InvalidIndexError("SQLite index is incomplete")
 
+            # The index version is stored last together with the other metadata. If it is missing, then the creation
+            # was interrupted before the metadata required to detect outdated indexes could be stored.
+            if 'versions' in tables and 'index' not in (versions or {}):
+                raise InvalidIndexError("SQLite index is incomplete because it contains no version")
+
             # Check for pre-sparse support indexes
             if (
                 'versions' not in tables
-- 
2.43.0


From 40bc5b9ab38707259e97bff866cb944ab2cc0488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 02/56] fix: Recreate outdated indexes for non-TAR archives
 that have grown

---
 core/ratarmountcore/SQLiteIndex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index a0f1f5a..6410dec 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -540,10 +540,10 @@ class SQLiteIndex:
         if (
             hasattr(archiveStats, 'st_size')
             and 'st_size' in storedStats
-            and archiveStats.st_size < storedStats['st_size']
+            and archiveStats.st_size != storedStats['st_size']
         ):
             raise InvalidIndexError(
-                f"Archive for this SQLite index has shrunk in size from "
+                f"Archive for this SQLite index has changed in size from "
                 f"{storedStats['st_size']} to {archiveStats.st_size}"
             )
 
-- 
2.43.0


From ea86f9e34368775f87874885818e557bf0a0986c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 03/56] fix: Empty files in archives opened with libarchive
 could not be read

---
 core/ratarmountcore/mountsource/formats/libarchive.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index d4af1c5..d32c56a 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -399,6 +399,9 @@ class LibarchiveFile(io.RawIOBase):
     def _refill_buffer(self):
         bufferedSize = len(self._buffer) if self._buffer else 0
         if self._bufferOffset + bufferedSize >= self.fileSize:
+            if self._bufferIO is None:
+                # Empty files have nothing to buffer but must still be readable.
+                self._bufferIO = io.BytesIO()
             return
 
         self._bufferOffset += bufferedSize
-- 
2.43.0


From cf0202c6342630d87545b3f906e2c5bef951212e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 04/56] fix: Resume interrupted checksumming also for TARs and
 never for read-only indexes

---
 core/ratarmountcore/mountsource/SQLiteIndexMountSource.py | 2 +-
 core/ratarmountcore/mountsource/formats/tar.py            | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
index 2df1a3a..6c1584f 100644
--- a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
+++ b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
@@ -116,7 +116,7 @@ class SQLiteIndexMountSource(MountSource):
             self.index.try_to_open_first_file(lambda path: self.open(self.lookup(path)))
 
     def _compute_and_store_hashes(self) -> None:
-        if not self.hashes:
+        if not self.hashes or self.index.readOnly:
             return
 
         # We want to find all rows in "files" that are missing any of the self.hashes in "xattrs".
diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 65a6dc8..e07428c 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -689,6 +689,7 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
         if self.index.index_is_loaded():
             if not self.hasBeenAppendedTo:  # indirectly set by a successful call to _try_load_index
                 self._load_or_store_compression_offsets()  # load
+                self._compute_and_store_hashes()  # resume
                 self.index.reload_index_read_only()
                 return
 
@@ -715,6 +716,7 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
 
                 self.index.drop_metadata()
                 self._store_metadata()
+                self._compute_and_store_hashes()
                 self.index.reload_index_read_only()
                 return
 
-- 
2.43.0


From 12bb3b8a8a56cf98730e1c9def35a4f8282feefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 05/56] fix: Open index files that are to be mounted read-only

---
 core/ratarmountcore/mountsource/SQLiteIndexMountSource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
index 6c1584f..94b3a52 100644
--- a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
+++ b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
@@ -79,7 +79,7 @@ class SQLiteIndexMountSource(MountSource):
                 self.indexFilePath = self._temporaryFile.name
 
             # Encoding is only used for set_file_infos, so we are fine not forwarding it.
-            self.index = SQLiteIndex(indexFilePath=self.indexFilePath, indexFolders=[], readOnly=True)
+            self.index = SQLiteIndex(indexFilePath=self.indexFilePath, indexFolders=[], readOnlyIndex=True)
 
         # Initialize members before using checkMetadata because it might to try to use those.
         self.archiveFilePath = self.index.archiveFilePath
-- 
2.43.0


From d913ab777d49c80629c4bfff8149abe9594c782d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:58 +0000
Subject: [PATCH 06/56] fix: Do not replace the archive stats stored in an
 index when only loading it

---
 core/ratarmountcore/SQLiteIndex.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 6410dec..2b32156 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -462,6 +462,11 @@ class SQLiteIndex:
             return
 
         try:
+            # Never overwrite the file stats with newer ones when only updating the other metadata of an existing index
+            # or else outdated indexes cannot be recognized anymore.
+            if self.get_connection().execute('SELECT 1 FROM "metadata" WHERE key == ?;', ("tarstats",)).fetchone():
+                return
+
             tarStats = os.stat(filePath)
             serializedTarStats = json.dumps(
                 {attr: getattr(tarStats, attr) for attr in dir(tarStats) if attr.startswith('st_')}
-- 
2.43.0


From b2411976dd3f29eeeac24966764c7473c4ee8783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:58 +0000
Subject: [PATCH 07/56] fix: Do not write an index file if it was not requested
 even if the archive has many files

---
 core/ratarmountcore/SQLiteIndex.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 2b32156..5d34789 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -269,6 +269,7 @@ class SQLiteIndex:
         self.indexMinimumFileCount = indexMinimumFileCount
         self.backendName = backendName
         self._insertedRowCount = 0
+        self._writeIndex = True
         self._temporaryIndexFile: Optional[Any] = None
 
         if indexFolders is None:
@@ -691,6 +692,9 @@ class SQLiteIndex:
         logger.info("other index paths: %s", self.possibleIndexFilePaths)
         if not self.indexFilePath or self.indexFilePath != ':memory:' or not self.sqlConnection:
             return
+        if not self._writeIndex:
+            logger.info("Will keep the index in memory because writing it has not been requested.")
+            return
 
         oldIndexFilePath, oldSqlConnection = self.indexFilePath, self.sqlConnection
         self.preferMemory = False
@@ -780,6 +784,7 @@ class SQLiteIndex:
         if writeIndex and (self._requestedIndexFilePath or not isFileObject):
             self.open_writable()
         else:
+            self._writeIndex = False
             self.indexFilePath, self.sqlConnection = SQLiteIndex._create_sql_db(':memory:')
 
         self.create_index_timed(create_index)
-- 
2.43.0


From 6c96c60f7da7d0f0b15bd59aeb9e604eb213e537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:09 +0000
Subject: [PATCH 08/56] fix: Do not corrupt the position of stenciled files
 with rejected seeks or fail after seeking beyond the end

---
 core/ratarmountcore/StenciledFile.py | 29 ++++++++++++----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/core/ratarmountcore/StenciledFile.py b/core/ratarmountcore/StenciledFile.py
index 7bce4b0..ab1b425 100644
--- a/core/ratarmountcore/StenciledFile.py
+++ b/core/ratarmountcore/StenciledFile.py
@@ -158,17 +158,13 @@ class RawStenciledFile(FixedRawIOBase):
     @overrides(io.RawIOBase)
     def seek(self, offset: int, whence: int = io.SEEK_SET) -> int:
         if whence == io.SEEK_CUR:
-            self.offset += offset
+            offset += self.offset
         elif whence == io.SEEK_END:
-            self.offset = self.cumsizes[-1] + offset
-        elif whence == io.SEEK_SET:
-            self.offset = offset
+            offset += self.cumsizes[-1]
 
-        if self.offset < 0:
+        if offset < 0:
             raise ValueError("Trying to seek before the start of the file!")
-        if self.offset >= self.cumsizes[-1]:
-            return self.offset
-
+        self.offset = offset
         return self.offset
 
     @overrides(io.RawIOBase)
@@ -386,24 +382,23 @@ class LambdaReaderFile(io.RawIOBase):
 
     @overrides(io.RawIOBase)
     def read(self, size: int = -1) -> bytes:
-        result = self.rawRead(self.offset, min(self.size if size < 0 else size, max(0, self.size - self.offset)))
+        remaining = max(0, self.size - self.offset)
+        if remaining == 0:
+            return b''  # Also after seeking to after the end of the file, for which 'rawRead' need not be defined.
+        result = self.rawRead(self.offset, min(self.size if size < 0 else size, remaining))
         self.offset += len(result)
         return result
 
     @overrides(io.RawIOBase)
     def seek(self, offset: int, whence: int = io.SEEK_SET) -> int:
         if whence == io.SEEK_CUR:
-            self.offset += offset
+            offset += self.offset
         elif whence == io.SEEK_END:
-            self.offset = self.size + offset
-        elif whence == io.SEEK_SET:
-            self.offset = offset
+            offset += self.size
 
-        if self.offset < 0:
+        if offset < 0:
             raise ValueError("Trying to seek before the start of the file!")
-        if self.offset >= self.size:
-            return self.offset
-
+        self.offset = offset
         return self.offset
 
     @overrides(io.RawIOBase)
-- 
2.43.0


From bbae38a259ac81996d9829ed7e1b788de1d9c2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:09 +0000
Subject: [PATCH 09/56] fix: Reject seeks to before the start of files in FAT
 images

---
 core/ratarmountcore/_external/pyfatfs/FatIO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/ratarmountcore/_external/pyfatfs/FatIO.py b/core/ratarmountcore/_external/pyfatfs/FatIO.py
index 5531cb8..aaa409f 100644
--- a/core/ratarmountcore/_external/pyfatfs/FatIO.py
+++ b/core/ratarmountcore/_external/pyfatfs/FatIO.py
@@ -86,6 +86,8 @@ class FatIO(io.RawIOBase):
         elif whence != 0:
             raise ValueError(f"Invalid whence {whence}, should be 0, 1 or 2")
 
+        if offset < 0:
+            raise ValueError("Trying to seek before the start of the file!")
         offset = min(offset, self.dir_entry.filesize)
         prev_index = self.__cindex
 
-- 
2.43.0


From 2c87d42b470d5e8a92bc7f9fea83a34f93497863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:09 +0000
Subject: [PATCH 10/56] fix: Interpret references to long names in AR archives
 as byte offsets

---
 core/ratarmountcore/mountsource/formats/ar.py | 27 +++++--------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/ar.py b/core/ratarmountcore/mountsource/formats/ar.py
index 6e4e8a4..ea3b164 100644
--- a/core/ratarmountcore/mountsource/formats/ar.py
+++ b/core/ratarmountcore/mountsource/formats/ar.py
@@ -72,9 +72,8 @@ def _parse_ar_archive(fileObject: IO[bytes]) -> list[tarfile.TarInfo]:
     POSIX_SYMBOL_TABLE_NAME = b'/'
     GNU_INDEX_NAME = b'//'
     BSD_LONG_NAME_PREFIX = b'#1/'
-    # For thin archives, it simply is bytes because for some reason thin archives use byte indexes while
-    # normal archives index by file name entry.
-    long_names: Optional[Union[bytes, list[bytes]]] = None
+    # Contents of the GNU_INDEX_NAME entry, in which each name is identified by its byte offset.
+    long_names: Optional[bytes] = None
 
     # It could be argued that the special 'debian-binary' text file could be ignored because it should be
     # interpreted as some kind of magic bytes, but I am not fully convinced of that. Simply also display
@@ -84,13 +83,8 @@ def _parse_ar_archive(fileObject: IO[bytes]) -> list[tarfile.TarInfo]:
         if long_names and name.startswith(b'/') and name[1:].isdigit():
             index = int(name[1:])
             if index >= 0 and index < len(long_names):
-                if not is_thin:
-                    return long_names[index]
-
-                if isinstance(long_names, bytes):  # Should always be the case for is_thin.
-                    end = long_names.find(b'/\n', index)
-                    if end >= index:
-                        return long_names[index:end]
+                # GNU and System V terminate names with "/\n", COFF does with a null byte.
+                return re.split(b'/\n|\0', long_names[index:], maxsplit=1)[0]
         return name
 
     while header_data := fileObject.read(HEADER_SIZE):
@@ -138,17 +132,8 @@ def _parse_ar_archive(fileObject: IO[bytes]) -> list[tarfile.TarInfo]:
             continue
 
         if name == GNU_INDEX_NAME:
-            if is_thin:
-                long_names = fileObject.read(size)
-            else:
-                long_names = fileObject.read(size).split(b'/\n')
-
-                # GNU ar pads the table internally to an even size.
-                if size % 2 == 0:
-                    if long_names and long_names[-1] in (b'\x60', b'\x0a'):
-                        long_names.pop()
-                else:
-                    fileObject.seek(size % 2, io.SEEK_CUR)  # Skip padding
+            long_names = fileObject.read(size)
+            fileObject.seek(size % 2, io.SEEK_CUR)  # Skip padding, which GNU ar already includes into the size.
 
             # Retroactively apply the index if it is not the very first entry in the archive.
             for file in files:
-- 
2.43.0


From 5582473771d7c07e0b30a2192891febc00f7f730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:09 +0000
Subject: [PATCH 11/56] fix: Do not return data after the end of files in EXT4
 images

---
 core/ratarmountcore/mountsource/formats/ext4.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/ext4.py b/core/ratarmountcore/mountsource/formats/ext4.py
index 15bb35a..b30ce43 100644
--- a/core/ratarmountcore/mountsource/formats/ext4.py
+++ b/core/ratarmountcore/mountsource/formats/ext4.py
@@ -1,9 +1,11 @@
+import io
 import types
 from collections.abc import Iterable
-from typing import IO, Any, Optional, Union
+from typing import IO, Any, Optional, Union, cast
 
 from ratarmountcore.formats import FileFormatID, replace_format_check
 from ratarmountcore.mountsource import FileInfo, MountSource
+from ratarmountcore.StenciledFile import RawStenciledFile, StenciledFile
 from ratarmountcore.utils import overrides
 
 try:
@@ -118,7 +120,11 @@ class EXT4MountSource(MountSource):
     def open(self, fileInfo: FileInfo, buffering=-1) -> IO[bytes]:
         inode = fileInfo.userdata[-1]
         assert isinstance(inode, int)
-        return self.fileSystem.inodes[inode].open()
+        # ext4.block.BlockIO returns up to a whole block for reads over the end of the file, so limit it to the file size.
+        stencils = [(self.fileSystem.inodes[inode].open(), 0, fileInfo.size)]
+        if buffering == 0:
+            return cast(IO[bytes], RawStenciledFile(stencils))
+        return StenciledFile(stencils, bufferSize=io.DEFAULT_BUFFER_SIZE if buffering <= 1 else buffering)
 
     @overrides(MountSource)
     def __exit__(self, exception_type, exception_value, exception_traceback):
-- 
2.43.0


From f7f1bde22edef4bb8138d85b59478462927f7bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:09 +0000
Subject: [PATCH 12/56] fix: Advance the position when reading from files in
 SquashFS images

---
 .../mountsource/formats/squashfs.py               | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/squashfs.py b/core/ratarmountcore/mountsource/formats/squashfs.py
index 6e99e9b..108129a 100644
--- a/core/ratarmountcore/mountsource/formats/squashfs.py
+++ b/core/ratarmountcore/mountsource/formats/squashfs.py
@@ -214,12 +214,12 @@ class SquashFSFile(io.RawIOBase):
             raise RuntimeError("Closed file cannot be read from!")
         result = self._bufferIO.read(size)
         # An empty buffer signals the end of the file!
-        if result or not self._buffer:
-            return result
-
-        self._blockIndex += 1
-        self._refill_buffer(self._blockIndex)
-        return self._bufferIO.read(size)
+        if not result and self._buffer:
+            self._blockIndex += 1
+            self._refill_buffer(self._blockIndex)
+            result = self._bufferIO.read(size)
+        self._offset += len(result)
+        return result
 
     @overrides(io.RawIOBase)
     def read(self, size: int = -1) -> bytes:
@@ -259,7 +259,8 @@ class SquashFSFile(io.RawIOBase):
         elif whence == io.SEEK_END:
             offset += self._size
 
-        self._offset = max(0, min(offset, self._size))
+        offset = max(0, min(offset, self._size))
+        self._offset = offset
         bufferOffset = self._blockIndex * self._block_size
         if offset < bufferOffset or offset >= bufferOffset + len(self._buffer):
             self._refill_buffer(offset // self._block_size)  # Updates self._blockIndex!
-- 
2.43.0


From 693b28798afadefaf951b34bfd46d1863342e205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:09 +0000
Subject: [PATCH 13/56] fix: Limit TarMountSource.read to the file and lock the
 shared file object

---
 core/ratarmountcore/mountsource/formats/tar.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index e07428c..f3a87f8 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -1109,8 +1109,11 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
                 return file.read(size)
 
         # For non-sparse files, we can simply seek to the offset and read from it.
-        self.tarFileObject.seek(tarFileInfo.offset + offset, os.SEEK_SET)
-        return self.tarFileObject.read(size)
+        # Do not read past the end of the file into the next header or file.
+        remaining = max(0, fileInfo.size - offset)
+        with self.fileObjectLock:
+            self.tarFileObject.seek(tarFileInfo.offset + offset, os.SEEK_SET)
+            return self.tarFileObject.read(remaining if size < 0 else min(size, remaining))
 
     @overrides(MountSource)
     def statfs(self) -> dict[str, Any]:
-- 
2.43.0


From ca2ea5b1140b144336faea943d9b787b84ce78cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:09 +0000
Subject: [PATCH 14/56] fix: Wrong data when seeking in stored ZIP members with
 multiple open files

---
 .../ratarmountcore/mountsource/formats/zip.py | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/zip.py b/core/ratarmountcore/mountsource/formats/zip.py
index 894316a..cec2f2e 100644
--- a/core/ratarmountcore/mountsource/formats/zip.py
+++ b/core/ratarmountcore/mountsource/formats/zip.py
@@ -1,5 +1,6 @@
 import contextlib
 import datetime
+import io
 import logging
 import stat
 import sys
@@ -23,6 +24,30 @@ except (ImportError, Exception):
 logger = logging.getLogger(__name__)
 
 
+def _fix_relative_seek_of_shared_file() -> None:
+    """
+    Relative seeks of zipfile._SharedFile are, at least up to CPython 3.12, relative to the position of the underlying
+    file object, which is shared with all other opened members. ZipExtFile uses those for seeking forward in stored
+    members and then returns data from the wrong position if any other member has been read from in between.
+    """
+    shared_file = getattr(zipfile, '_SharedFile', None)
+    if shared_file is None or getattr(shared_file, '_ratarmount_fixed_seek', False):
+        return
+
+    original_seek = shared_file.seek
+
+    def seek(self, offset, whence=io.SEEK_SET):
+        if whence == io.SEEK_CUR:
+            return original_seek(self, self.tell() + offset, io.SEEK_SET)
+        return original_seek(self, offset, whence)
+
+    shared_file.seek = seek
+    shared_file._ratarmount_fixed_seek = True  # pylint: disable=protected-access
+
+
+_fix_relative_seek_of_shared_file()
+
+
 class ZipMountSource(SQLiteIndexMountSource):
     def __init__(self, fileOrPath: Union[str, IO[bytes], Path], **options) -> None:
         if 'zipfile' not in sys.modules:
-- 
2.43.0


From 5c74381bf8a5d7627b52b8133aa90c6fe2a73304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:20 +0000
Subject: [PATCH 15/56] fix: Do not change the row factory of the shared SQLite
 connection during listings

---
 core/ratarmountcore/SQLiteIndex.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 5d34789..fa32ae4 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -901,15 +901,15 @@ class SQLiteIndex:
             )
             # fmt: on
 
-        oldRowFactory = self.get_connection().row_factory
-        self.get_connection().row_factory = row_to_file_info
+        # Set the row factory only for this cursor because the connection might be used by other threads.
+        cursor = self.get_connection().cursor()
+        cursor.row_factory = row_to_file_info
         directory: dict[str, FileInfo] = dict(
-            self.get_connection().execute(
+            cursor.execute(
                 'SELECT ' + ','.join(selected_columns) + ' FROM "files" WHERE "path" == (?) ORDER BY "offsetheader"',
                 (self._query_normpath(path).rstrip('/'),),
             )
         )
-        self.get_connection().row_factory = oldRowFactory
 
         gotResults = bool(directory)
         directory.pop('', None)
@@ -925,13 +925,12 @@ class SQLiteIndex:
 
         # See comments in list.
         # The only difference here is that we do not request all columns, but only two in a tuple.
-        oldRowFactory = self.get_connection().row_factory
-        self.get_connection().row_factory = None
+        # sqlite3.Row rows also support indexing, so there is no need to change the row factory for the connection,
+        # which might be used by other threads.
         rows = self.get_connection().execute(
             'SELECT name,mode FROM "files" WHERE "path" == (?) ORDER BY "offsetheader"',
             (self._query_normpath(path).rstrip('/'),),
         )
-        self.get_connection().row_factory = oldRowFactory
 
         directory = {row[0]: row[1] for row in rows}
         gotResults = bool(directory)
-- 
2.43.0


From f40a3938663ae587d6a63033a715acb8502eb848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:50 +0000
Subject: [PATCH 16/56] fix: Do not write to loaded indexes if not necessary so
 that archives can be mounted more than once

---
 core/ratarmountcore/SQLiteIndex.py                        | 7 +++++++
 core/ratarmountcore/mountsource/SQLiteIndexMountSource.py | 5 ++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index fa32ae4..dd366f5 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -500,6 +500,13 @@ class SQLiteIndex:
         self._store_versions_metadata()
         self.get_connection().commit()
 
+    def metadata_is_stored(self) -> bool:
+        try:
+            keys = {row[0] for row in self.get_connection().execute('SELECT key FROM "metadata";')}
+        except sqlite3.OperationalError:
+            return False
+        return {'arguments', 'backendName'}.issubset(keys)
+
     def drop_metadata(self):
         self.get_connection().executescript("DELETE FROM metadata; DELETE FROM versions;")
 
diff --git a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
index 94b3a52..e549920 100644
--- a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
+++ b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
@@ -221,7 +221,10 @@ class SQLiteIndexMountSource(MountSource):
             # It does not check regarding xattrs completenes. We need to check whether some hashes
             # should still be computed.
             self._compute_and_store_hashes()
-            callable_store_metadata()
+            # The metadata has already been checked to match during loading. Do not write to the database if not
+            # necessary because that fails if the index is in use by another mount.
+            if not self.index.metadata_is_stored():
+                callable_store_metadata()
             self.index.reload_index_read_only()
             return
 
-- 
2.43.0


From 33ccc6a6d292f44eef4da5260efa3aa6f9782e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:37 +0000
Subject: [PATCH 17/56] fix: Synchronize accesses of multiple files opened in
 SquashFS and libarchive archives

---
 .../mountsource/formats/libarchive.py         | 64 +++++++++++++------
 .../mountsource/formats/squashfs.py           | 20 ++++++
 2 files changed, 64 insertions(+), 20 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index d32c56a..82355b6 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -8,6 +8,7 @@ import logging
 import os
 import stat
 import sys
+import threading
 from collections.abc import Sequence
 from pathlib import Path
 from typing import IO, Callable, Optional, Union, cast
@@ -196,10 +197,12 @@ class IterableArchive:
         encoding='utf-8',
         passwords: Optional[Sequence[Union[str, bytes]]] = None,
         bufferSize=1024 * 1024,
+        fileLock=None,
     ):
         self.encoding = encoding
         self.bufferSize = bufferSize
         self._file = file
+        self._fileLock = fileLock or threading.Lock()
         self._entryIndex = 0  # A consecutive number to identify entries even if they have the same name.
         self._buffer = None
         self._readCallback = None
@@ -271,14 +274,23 @@ class IterableArchive:
         if not hasattr(self._file, 'readinto'):
             return
         self._buffer = ctypes.create_string_buffer(self.bufferSize)
+        # The file object is shared with other instances, e.g., when there are multiple files opened in the archive.
+        # Therefore, its position must be restored before each access.
+        position: Optional[int] = None
 
         def read_from_file_object(_archive, _context, pointerToBufferPointer):
-            try:
-                size = self._file.readinto(self._buffer)
-            except (NotImplementedError, AttributeError):
-                result = self._file.read(self.bufferSize)
-                size = len(result)
-                self._buffer = ctypes.c_char_p(result)
+            nonlocal position
+            with self._fileLock:
+                if position is not None:
+                    self._file.seek(position)
+                try:
+                    size = self._file.readinto(self._buffer)
+                except (NotImplementedError, AttributeError):
+                    result = self._file.read(self.bufferSize)
+                    size = len(result)
+                    self._buffer = ctypes.c_char_p(result)
+                if position is not None:
+                    position += size
             pointerToBufferPointer = ctypes.cast(pointerToBufferPointer, ctypes.POINTER(ctypes.c_void_p))
             pointerToBufferPointer[0] = ctypes.cast(self._buffer, ctypes.c_void_p)
             return size
@@ -286,10 +298,15 @@ class IterableArchive:
         if hasattr(self._file, 'seekable') and self._file.seekable() and hasattr(self._file, 'tell'):
 
             def seek_file_object(_archive, _context, offset, whence):
-                self._file.seek(offset, whence)
-                return self._file.tell()
-
-            self._file.seek(0)
+                nonlocal position
+                with self._fileLock:
+                    if position is not None:
+                        self._file.seek(position)
+                    self._file.seek(offset, whence)
+                    position = self._file.tell()
+                    return position
+
+            position = 0
             self._seekCallback = laffi.SEEK_CALLBACK(seek_file_object)
             # Needs to be assigned to self, or else, ctypes lifetime issues result in a segfault!
             laffi.read_set_seek_callback(self._archive, self._seekCallback)
@@ -339,19 +356,24 @@ class IterableArchiveCache:
     def __init__(self, cacheSize: int = 5):
         self.cacheSize = cacheSize
         self._cache: list[IterableArchive] = []
+        self._lock = threading.Lock()
+        # Used to synchronize accesses to the file object, from which all of the cached archives are reading.
+        self.fileLock = threading.Lock()
 
     def insert(self, archive: IterableArchive):
-        self._cache.append(archive)
-        while len(self._cache) > self.cacheSize:
-            self._cache.pop(0)
+        with self._lock:
+            self._cache.append(archive)
+            while len(self._cache) > self.cacheSize:
+                self._cache.pop(0)
 
     def take(self, entry_index: int) -> Optional[IterableArchive]:
-        qualified = [i for i in range(len(self._cache)) if self._cache[i].entry_index() < entry_index]
-        if not qualified:
-            return None
-        # Find the archive with the closest (highest) index not larger or equal than the requested one
-        result = max(qualified, key=lambda i: self._cache[i].entry_index())
-        return self._cache.pop(result)
+        with self._lock:
+            qualified = [i for i in range(len(self._cache)) if self._cache[i].entry_index() < entry_index]
+            if not qualified:
+                return None
+            # Find the archive with the closest (highest) index not larger or equal than the requested one
+            result = max(qualified, key=lambda i: self._cache[i].entry_index())
+            return self._cache.pop(result)
 
 
 class LibarchiveFile(io.RawIOBase):
@@ -383,7 +405,9 @@ class LibarchiveFile(io.RawIOBase):
 
         self._archive = self._archiveCache.take(self.entry_index)
         if self._archive is None:
-            self._archive = IterableArchive(self.file, passwords=self.passwords)
+            self._archive = IterableArchive(
+                self.file, passwords=self.passwords, fileLock=self._archiveCache.fileLock
+            )
 
         while True:
             self._entry = self._archive.next_entry()
diff --git a/core/ratarmountcore/mountsource/formats/squashfs.py b/core/ratarmountcore/mountsource/formats/squashfs.py
index 108129a..ed8c0f0 100644
--- a/core/ratarmountcore/mountsource/formats/squashfs.py
+++ b/core/ratarmountcore/mountsource/formats/squashfs.py
@@ -5,6 +5,7 @@ import io
 import logging
 import os
 import stat
+import threading
 import zlib
 from pathlib import Path
 from typing import IO, Any, Optional, Union
@@ -44,6 +45,12 @@ except ImportError:
 
         # These are not overridden, only called:
 
+        def _read_data_block(self, start, size):
+            raise NotImplementedError
+
+        def _read_block(self, start, *args, **kwargs):
+            raise NotImplementedError
+
         def _read_block_list(self, start, offset, blocks):
             raise NotImplementedError
 
@@ -295,8 +302,21 @@ class SquashFSImage(SquashFsImage):
     @overrides(SquashFsImage)
     def __init__(self, *args, **kwargs):
         self._real_root = None
+        self._lock = threading.RLock()
         super().__init__(*args, **kwargs)  # Calls overridden _initialize
 
+    @overrides(SquashFsImage)
+    def _read_data_block(self, start, size):
+        # Seeks and reads from the shared file object and uses the shared decompressor.
+        with self._lock:
+            return super()._read_data_block(start, size)
+
+    @overrides(SquashFsImage)
+    def _read_block(self, start, *args, **kwargs):
+        # Seeks and reads from the shared file object and uses the shared decompressor.
+        with self._lock:
+            return super()._read_block(start, *args, **kwargs)
+
     @overrides(SquashFsImage)
     def _get_compressor(self, compression_id):
         if compression_id == Compression.ZLIB:
-- 
2.43.0


From c465f29f0e710cd01386250358cadd21d1f1d205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:40 +0000
Subject: [PATCH 18/56] fix: Block-parallel reads of negative sizes, failed
 reads and seeks, and block lookup

---
 core/ratarmountcore/BlockParallelReaders.py | 45 ++++++++++++++++-----
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/core/ratarmountcore/BlockParallelReaders.py b/core/ratarmountcore/BlockParallelReaders.py
index b22e206..b83b0b5 100644
--- a/core/ratarmountcore/BlockParallelReaders.py
+++ b/core/ratarmountcore/BlockParallelReaders.py
@@ -134,22 +134,46 @@ class BlockParallelReader(io.BufferedIOBase):
     @overrides(io.BufferedIOBase)
     def seek(self, offset: int, whence: int = io.SEEK_SET) -> int:
         if whence == io.SEEK_CUR:
-            self._offset += offset
+            newOffset = self._offset + offset
         elif whence == io.SEEK_END:
-            self._offset = self.blockBoundaries[-1] + offset
+            newOffset = self.blockBoundaries[-1] + offset
         elif whence == io.SEEK_SET:
-            self._offset = offset
+            newOffset = offset
+        else:
+            raise ValueError(f"Invalid whence value: {whence}")
 
-        if self._offset < 0:
+        if newOffset < 0:
             raise ValueError("Trying to seek before the start of the file!")
 
+        self._offset = newOffset
         return self._offset
 
     @overrides(io.BufferedIOBase)
     def tell(self) -> int:
         return self._offset
 
-    def _read(self, size: int, decodeBlock) -> bytes:
+    def _get_block(self, blockNumber: int, block) -> bytes:
+        try:
+            return block.get()
+        except Exception:
+            # Do not cache errors or else the block would stay unreadable even if the cause of the error vanished.
+            if self._blockCache.get(blockNumber) is block:
+                del self._blockCache[blockNumber]
+            raise
+
+    def _read(self, size: Optional[int], decodeBlock) -> bytes:
+        oldOffset = self._offset
+        try:
+            return self._read_blocks(size, decodeBlock)
+        except Exception:
+            # Do not advance the position when nothing could be returned.
+            self._offset = oldOffset
+            raise
+
+    def _read_blocks(self, size: Optional[int], decodeBlock) -> bytes:
+        if size is None or size < 0:
+            size = max(0, self.blockBoundaries[-1] - self._offset)
+
         blocks = []
         blockNumber = self._find_block(self.blockBoundaries, self._offset)
         if blockNumber is None:
@@ -165,7 +189,8 @@ class BlockParallelReader(io.BufferedIOBase):
         # But, I think this is a small enough workaround for such a large impact.
         if blockNumber in self._blockCache and size <= availableSize and self._lastUsedBlock == blockNumber:
             self.cacheHitCount += 1
-            result = self._blockCache[blockNumber].get()[firstBlockOffset : firstBlockOffset + size]
+            data = self._get_block(blockNumber, self._blockCache[blockNumber])
+            result = data[firstBlockOffset : firstBlockOffset + size]
             self._offset += len(result)
             return result
 
@@ -194,7 +219,7 @@ class BlockParallelReader(io.BufferedIOBase):
                 self._blockCache[blockNumber] = fetchedBlock
                 pendingBlocks += 1
 
-            blocks.append(fetchedBlock)
+            blocks.append((blockNumber, fetchedBlock))
             self._offset += min(availableSize, size)
             if size <= availableSize:
                 break
@@ -228,11 +253,11 @@ class BlockParallelReader(io.BufferedIOBase):
         # Concatenate data from blocks as necessary
         result = b""
         while blocks:
-            block = blocks.pop(0)
+            blockNumber, block = blocks.pop(0)
             if not block.ready():
                 self.cacheMissCount += 1
             # Note that it is perfectly safe to call AsyncResult.get multiple times!
-            toAppend = block.get()
+            toAppend = self._get_block(blockNumber, block)
             if firstBlockOffset > 0:
                 toAppend = toAppend[firstBlockOffset:]
             if not blocks:
@@ -341,7 +366,7 @@ class ParallelXZReader(BlockParallelReader):
         """
         Returns the block number corresponding to the specified offset in the decompressed stream.
         """
-        return self._find_block(self.blockBoundaries, self._offset)
+        return self._find_block(self.blockBoundaries, offset)
 
 
 # This one is actually mostly slower than serial decoding. Even the command line tool zstd is often slower with
-- 
2.43.0


From 97834be836b56f31d728653afcb7fcfd8c51798e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 19/56] fix: Store indexes for split archives in the configured
 index folders

---
 core/ratarmountcore/mountsource/factory.py | 25 +++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/core/ratarmountcore/mountsource/factory.py b/core/ratarmountcore/mountsource/factory.py
index ed355c9..9b9b902 100644
--- a/core/ratarmountcore/mountsource/factory.py
+++ b/core/ratarmountcore/mountsource/factory.py
@@ -9,12 +9,13 @@ import re
 import stat
 import sys
 import warnings
-from collections.abc import Iterable
+from collections.abc import Iterable, Sequence
 from pathlib import Path
-from typing import IO, Union
+from typing import IO, Optional, Union
 
 from ratarmountcore.compressions import COMPRESSION_BACKENDS, check_for_split_file_in_folder
 from ratarmountcore.formats import FILE_FORMATS, FileFormatID, might_be_format
+from ratarmountcore.SQLiteIndex import SQLiteIndex
 from ratarmountcore.StenciledFile import JoinedFileFromFactory
 from ratarmountcore.utils import CompressionError, RatarmountError
 
@@ -272,6 +273,24 @@ def find_backends_by_extension(fileName: str) -> list[str]:
     ]
 
 
+def _find_index_path(archivePath: str, indexFolders: Optional[Union[str, Sequence[str]]]) -> str:
+    """
+    Returns the first usable index location for archives which are opened as file objects, for which the
+    index therefore cannot determine the possible locations itself.
+    """
+    if isinstance(indexFolders, str):
+        indexFolders = [indexFolders]
+
+    paths = SQLiteIndex.get_possible_index_file_paths(None, indexFolders, archivePath)
+    for path in paths:
+        folder = os.path.dirname(os.path.abspath(path))
+        while not os.path.exists(folder):
+            folder = os.path.dirname(folder)  # missing folders will be created
+        if os.path.isfile(path) or os.access(folder, os.W_OK):
+            return path
+    return paths[0]
+
+
 def open_mount_source(fileOrPath: Union[str, IO[bytes], os.PathLike], **options) -> MountSource:
     if isinstance(fileOrPath, str) and '://' in fileOrPath:
         openedURL = try_open_url(fileOrPath)
@@ -305,7 +324,7 @@ def open_mount_source(fileOrPath: Union[str, IO[bytes], os.PathLike], **options)
             filesToJoin = splitFileResult[0]
             joinedFileName = os.path.basename(filesToJoin[0]).rsplit('.', maxsplit=1)[0]
             if 'indexFilePath' not in options or not options['indexFilePath']:
-                options['indexFilePath'] = filesToJoin[0] + ".index.sqlite"
+                options['indexFilePath'] = _find_index_path(filesToJoin[0], options.get('indexFolders'))
             # https://docs.python.org/3/faq/programming.html
             # > Why do lambdas defined in a loop with different values all return the same result?
             fileOrPath = JoinedFileFromFactory(
-- 
2.43.0


From 67bedc59a748935264f3444543685d3b93858ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 20/56] fix: Keep data and metadata when files are copied to
 the write overlay folder

Truncating or extending files that already were in the overlay folder replaced them with the archive contents.
Failing copies left incomplete files behind that hid the ones in the archive. Permissions and owners of files
and of their parent folders were lost, and the modification time did not change anymore after a chmod or utimens.
---
 ratarmount/WriteOverlay.py | 73 +++++++++++++++++++++++++++++---------
 1 file changed, 56 insertions(+), 17 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index c14ca4c..7715fdd 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -1,3 +1,4 @@
+import contextlib
 import errno
 import functools
 import os
@@ -67,6 +68,9 @@ class WritableFolderMountSource(fuse.Operations):
     """
 
     hiddenDatabaseName = '.ratarmount.overlay.sqlite'
+    # For temporary SQLite file suffixes, see https://www.sqlite.org/tempfiles.html
+    # The last one is for files from the mount source that are still being copied to the overlay folder.
+    hiddenNames = tuple(hiddenDatabaseName + suffix for suffix in ('', '-journal', '-shm', '-wal', '.partial'))
 
     def __init__(self, path: str, mountSource: MountSource, ignoredPrefixes: Optional[list[str]] = None) -> None:
         if os.path.lexists(path):
@@ -158,15 +162,41 @@ class WritableFolderMountSource(fuse.Operations):
         """
         parentPath = self._split_path(path)[0]
         if not os.path.exists(self._realpath(parentPath)) and self.mountSource.is_dir(parentPath):
-            os.makedirs(self._realpath(parentPath), exist_ok=True)
+            self._ensure_parent_exists(parentPath)
+            # Keep the metadata of the folder in the mount source.
+            self._init_file_metadata(parentPath)
+            os.mkdir(self._realpath(parentPath))
+
+    def _ensure_file_is_modifiable(self, path, size: Optional[int] = None):
+        """
+        Copies the file into the overlay folder if it does not already exist there.
+        size: If specified, only this many bytes at the start of the file are required.
+        """
+        if os.path.lexists(self._realpath(path)):
+            return
+
+        fileInfo = self.mountSource.lookup(path)
+        if not fileInfo:
+            raise fuse.FuseOSError(errno.ENOENT)
 
-    def _ensure_file_is_modifiable(self, path):
         self._ensure_parent_exists(path)
-        with (
-            self.mountSource.open(self.mountSource.lookup(path)) as sourceObject,
-            open(self._realpath(path), 'wb') as targetObject,
-        ):
-            shutil.copyfileobj(sourceObject, targetObject)
+        # Keep the metadata of the file in the mount source.
+        self._init_file_metadata(path)
+
+        # Copy to a temporary file first to not end up with an incomplete file hiding the one in the mount source.
+        temporaryPath = os.path.join(self.root, self.hiddenDatabaseName + '.partial')
+        try:
+            with open(temporaryPath, 'wb') as targetObject:
+                if size != 0:
+                    with self.mountSource.open(fileInfo) as sourceObject:
+                        shutil.copyfileobj(sourceObject, targetObject)
+            os.utime(temporaryPath, (fileInfo.mtime, fileInfo.mtime))
+            os.chmod(temporaryPath, stat.S_IMODE(fileInfo.mode) | stat.S_IRUSR | stat.S_IWUSR)
+            os.rename(temporaryPath, self._realpath(path))
+        except BaseException:
+            with contextlib.suppress(OSError):
+                os.unlink(temporaryPath)
+            raise
 
     def _open(self, path: str, mode):
         self._ensure_parent_exists(path)
@@ -197,9 +227,7 @@ class WritableFolderMountSource(fuse.Operations):
             'SELECT name FROM "files" WHERE path == (?) AND deleted == 1', (path.rstrip('/'),)
         )
 
-        # For temporary SQLite file suffixes, see https://www.sqlite.org/tempfiles.html
-        suffixes = ['', '-journal', '-shm', '-wal']
-        return [x[0] for x in result] + [self.hiddenDatabaseName + suffix for suffix in suffixes]
+        return [x[0] for x in result] + list(self.hiddenNames)
 
     def is_deleted(self, path: str) -> bool:
         folder, name = self._split_path(path)
@@ -241,11 +269,21 @@ class WritableFolderMountSource(fuse.Operations):
         sfi = self.mountSource.get_mount_source(sourceFileInfo)[2]
         folder, name = self._split_path(path)
 
+        # Do not store the modification time because it would not change anymore when the file is modified.
         self.sqlConnection.execute(
-            f'INSERT OR REPLACE INTO "files" VALUES ({",".join(["?"] * 7)})',
-            (folder, name, sfi.mtime, sfi.mode, sfi.uid, sfi.gid, False),
+            f'INSERT OR IGNORE INTO "files" VALUES ({",".join(["?"] * 7)})',
+            (folder, name, None, sfi.mode, sfi.uid, sfi.gid, False),
         )
 
+    def _clear_modification_time(self, path: str):
+        """Has to be called for modified files because the stored metadata takes precedence."""
+        folder, name = self._split_path(path)
+        condition = 'FROM "files" WHERE path == (?) AND name == (?) AND mtime IS NOT NULL'
+        if self.sqlConnection.execute(f'SELECT COUNT(*) {condition}', (folder, name)).fetchone()[0]:
+            self.sqlConnection.execute(
+                'UPDATE "files" SET mtime = NULL WHERE path == (?) AND name == (?)', (folder, name)
+            )
+
     def _set_file_metadata(self, path: str, applyMetadataToFile: Callable[[str], None], metadata: dict[str, Any]):
         folder, name = self._split_path(path)
 
@@ -445,8 +483,9 @@ class WritableFolderMountSource(fuse.Operations):
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
     def truncate(self, path: str, length: int, fh=None):
-        self._ensure_file_is_modifiable(path)
+        self._ensure_file_is_modifiable(path, size=length)
         os.truncate(self._realpath(path), length)
+        self._clear_modification_time(path)
 
     # Actual writing
 
@@ -454,7 +493,9 @@ class WritableFolderMountSource(fuse.Operations):
     @check_ignored_prefixes('path')
     def write(self, path: str, data, offset: int, fh):
         os.lseek(fh, offset, 0)
-        return os.write(fh, data)
+        result = os.write(fh, data)
+        self._clear_modification_time(path)
+        return result
 
     # Flushing
 
@@ -518,9 +559,7 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
         open(deletionList, 'a', encoding=encoding) as deletionListFile,
         open(appendList, 'a', encoding=encoding) as appendListFile,
     ):
-        # For temporary SQLite file suffixes, see https://www.sqlite.org/tempfiles.html
-        suffixes = ['', '-journal', '-shm', '-wal']
-        toBeIgnored = [WritableFolderMountSource.hiddenDatabaseName + suffix for suffix in suffixes]
+        toBeIgnored = WritableFolderMountSource.hiddenNames
 
         writeOverlayWithTrailingSlash = writeOverlay
         if not writeOverlayWithTrailingSlash.endswith('/'):
-- 
2.43.0


From 0220a5b32f03ca57a60ed5d7ba9ece1cf6686081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:12 +0000
Subject: [PATCH 21/56] fix: Failed or interrupted removals and creations in
 the write overlay must not change what is shown

Files were hidden although removing them had failed, or the ones in the archive reappeared when being interrupted.
Links and special files replacing deleted files stayed hidden and could not be created in archive folders.
Changing the modification time of a symbolic link changed the one of its target.
---
 ratarmount/WriteOverlay.py | 108 ++++++++++++++++++++++++++-----------
 1 file changed, 76 insertions(+), 32 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 7715fdd..3573201 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -198,16 +198,11 @@ class WritableFolderMountSource(fuse.Operations):
                 os.unlink(temporaryPath)
             raise
 
-    def _open(self, path: str, mode):
-        self._ensure_parent_exists(path)
+    def _store_created(self, path: str, mode):
+        """Must be called after creating the path, or else the deleted one in the mount source might reappear."""
         folder, name = self._split_path(path)
-
         self.sqlConnection.execute(
-            'INSERT OR IGNORE INTO "files" (path,name,mode,deleted) VALUES (?,?,?,?)', (folder, name, mode, False)
-        )
-        self.sqlConnection.execute(
-            'UPDATE "files" SET deleted=0 WHERE path == (?) AND name == (?)',
-            (folder, name),
+            'INSERT OR REPLACE INTO "files" (path,name,mode,deleted) VALUES (?,?,?,?)', (folder, name, mode, False)
         )
 
     def _mark_as_deleted(self, path: str):
@@ -221,6 +216,59 @@ class WritableFolderMountSource(fuse.Operations):
         else:
             self.sqlConnection.execute('DELETE FROM "files" WHERE (path,name) == (?,?)', (folder, name))
 
+    def _remove(self, path: str, removeFromOverlay: Callable[[str], None]):
+        """Removes the path from the overlay folder and hides the one in the underlying mount source."""
+        folder, name = self._split_path(path)
+        realpath = self._realpath(path)
+        if not os.path.lexists(realpath):
+            self._mark_as_deleted(path)
+            return
+
+        # Hide it before removing it, or else the file in the mount source would reappear on an interruption in between.
+        row = self.sqlConnection.execute(
+            'SELECT * FROM "files" WHERE path == (?) AND name == (?)', (folder, name)
+        ).fetchone()
+        self.sqlConnection.execute(
+            'INSERT OR REPLACE INTO "files" (path,name,deleted) VALUES (?,?,?)', (folder, name, True)
+        )
+        try:
+            if stat.S_ISDIR(os.lstat(realpath).st_mode):
+                self._remove_leftovers(path)
+            removeFromOverlay(realpath)
+        except Exception as exception:
+            traceback.print_exc()
+            self.sqlConnection.execute('DELETE FROM "files" WHERE path == (?) AND name == (?)', (folder, name))
+            if row:
+                self.sqlConnection.execute(f'INSERT INTO "files" VALUES ({",".join(["?"] * 7)})', tuple(row))
+            raise fuse.FuseOSError(errno.EIO) from exception
+        self._mark_as_deleted(path)
+
+    def _remove_leftovers(self, path: str):
+        """Removes files and folders inside the overlay folder for which the removal has been interrupted."""
+        realpath = self._realpath(path)
+        if os.path.isdir(realpath) and not os.path.islink(realpath):
+            for name in os.listdir(realpath):
+                self._remove_if_deleted(path.rstrip('/') + '/' + name)
+
+    def _remove_if_deleted(self, path: str):
+        realpath = self._realpath(path)
+        if os.path.lexists(realpath) and self.is_deleted(path):
+            self._remove_leftovers(path)
+            if os.path.isdir(realpath) and not os.path.islink(realpath):
+                os.rmdir(realpath)
+            else:
+                os.unlink(realpath)
+
+    def _prepare_creation(self, path: str):
+        self._ensure_parent_exists(path)
+        self._remove_if_deleted(path)
+
+    def _unmark_as_deleted(self, path: str):
+        folder, name = self._split_path(path)
+        self.sqlConnection.execute(
+            'UPDATE "files" SET deleted=0 WHERE path == (?) AND name == (?) AND deleted == 1', (folder, name)
+        )
+
     def list_deleted(self, path: str) -> list[str]:
         """Return list of files marked as deleted in the given path."""
         result = self.sqlConnection.execute(
@@ -356,7 +404,7 @@ class WritableFolderMountSource(fuse.Operations):
         mtime = time.time() if times is None else times[1] / 1e9
         ns = (int(mtime * 1e9), int(mtime * 1e9)) if times is None else times
 
-        self._set_file_metadata(path, lambda p: os.utime(p, ns=ns), {'mtime': mtime})
+        self._set_file_metadata(path, lambda p: os.utime(p, ns=ns, follow_symlinks=False), {'mtime': mtime})
 
     @overrides(fuse.Operations)
     def rename(self, old: str, new: str):
@@ -387,7 +435,9 @@ class WritableFolderMountSource(fuse.Operations):
     @overrides(fuse.Operations)
     @check_ignored_prefixes('target')
     def symlink(self, target: str, source: str):
+        self._prepare_creation(target)
         os.symlink(source, self._realpath(target))
+        self._unmark_as_deleted(target)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('target')
@@ -397,17 +447,18 @@ class WritableFolderMountSource(fuse.Operations):
         if not os.path.lexists(overlaySource) and self.mountSource.lookup(source):
             raise fuse.FuseOSError(errno.EXDEV)
 
-        target = self._realpath(target)
-
-        os.link(overlaySource, target)
+        self._prepare_creation(target)
+        os.link(overlaySource, self._realpath(target))
+        self._unmark_as_deleted(target)
 
     # Folders
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
     def mkdir(self, path: str, mode: int):
-        self._open(path, mode | stat.S_IFDIR)
+        self._prepare_creation(path)
         os.mkdir(self._realpath(path), mode)
+        self._store_created(path, mode | stat.S_IFDIR)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
@@ -421,14 +472,7 @@ class WritableFolderMountSource(fuse.Operations):
             if set(keys) - set(self.list_deleted(path)):
                 raise fuse.FuseOSError(errno.ENOTEMPTY)
 
-        try:
-            if os.path.exists(self._realpath(path)):
-                os.rmdir(self._realpath(path))
-        except Exception as exception:
-            traceback.print_exc()
-            raise fuse.FuseOSError(errno.EIO) from exception
-        finally:
-            self._mark_as_deleted(path)
+        self._remove(path, os.rmdir)
 
     # Files
 
@@ -449,11 +493,17 @@ class WritableFolderMountSource(fuse.Operations):
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
     def create(self, path: str, mode: int, fi=None):
-        self._open(path, mode)
+        self._prepare_creation(path)
         # TODO Use the correct flags according after fixing argument forwarding in mfusepy.
         #      https://github.com/mxmlnkn/ratarmount/issues/172#issuecomment-3312526348
         # I see no downside to always adding read-mode by default, until then.
-        return os.open(self._realpath(path), os.O_RDWR | os.O_CREAT | os.O_TRUNC, mode)
+        handle = os.open(self._realpath(path), os.O_RDWR | os.O_CREAT | os.O_TRUNC, mode)
+        try:
+            self._store_created(path, mode)
+        except BaseException:
+            os.close(handle)
+            raise
+        return handle
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
@@ -465,20 +515,14 @@ class WritableFolderMountSource(fuse.Operations):
             self._mark_as_deleted(path)
             raise fuse.FuseOSError(errno.ENOENT)
 
-        try:
-            if os.path.lexists(self._realpath(path)):
-                os.unlink(self._realpath(path))
-        except Exception as exception:
-            traceback.print_exc()
-            raise fuse.FuseOSError(errno.EIO) from exception
-        finally:
-            self._mark_as_deleted(path)
+        self._remove(path, os.unlink)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
     def mknod(self, path: str, mode: int, dev: int):
-        self._ensure_parent_exists(path)
+        self._prepare_creation(path)
         os.mknod(self._realpath(path), mode, dev)
+        self._unmark_as_deleted(path)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
-- 
2.43.0


From df5f5ad5a934a79c417b101bb1d04078c782b784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 22/56] fix: Renaming in the write overlay must not lose data
 or show replaced files again

Renamed archive folders and symbolic links became broken, renamed folders lost the metadata of their contents,
files that also are in the archive reappeared under the old name and targets that had been deleted stayed hidden.
---
 ratarmount/WriteOverlay.py | 75 +++++++++++++++++++++++++++++++-------
 1 file changed, 61 insertions(+), 14 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 3573201..35f982f 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -411,24 +411,71 @@ class WritableFolderMountSource(fuse.Operations):
         if not self.mountSource.exists(old) or self.is_deleted(old):
             raise fuse.FuseOSError(errno.ENOENT)
 
-        folder, name = self._split_path(new)
+        fileInfo = self.mountSource.lookup(old)
+        if fileInfo is None:
+            raise fuse.FuseOSError(errno.ENOENT)
 
-        # Delete target path from metadata database to avoid uniqueness restraint being invalidated
-        self.sqlConnection.execute('DELETE FROM "files" WHERE "path" == (?) and "name" == (?)', (folder, name))
-        self._set_file_metadata(old, lambda p: None, {'path': folder, 'name': name})
+        isFolder = stat.S_ISDIR(fileInfo.mode)
+        if isFolder:
+            # Folders in the mount source can only be moved by moving all files inside. Let the caller do that.
+            if not self._is_wholly_in_overlay(old):
+                raise fuse.FuseOSError(errno.EXDEV)
+            if not self.is_deleted(new) and self._list_names(new):
+                raise fuse.FuseOSError(errno.ENOTEMPTY)
+            self._remove_leftovers(old)
+        elif not os.path.lexists(self._realpath(old)):
+            if stat.S_ISREG(fileInfo.mode):
+                self._ensure_file_is_modifiable(old)
+            elif stat.S_ISLNK(fileInfo.mode):
+                self._ensure_parent_exists(old)
+                self._init_file_metadata(old)
+                os.symlink(fileInfo.linkname, self._realpath(old))
+                os.utime(self._realpath(old), (fileInfo.mtime, fileInfo.mtime), follow_symlinks=False)
+            else:
+                raise fuse.FuseOSError(errno.EXDEV)
 
         self._ensure_parent_exists(new)
-        if os.path.lexists(self._realpath(old)):
-            os.rename(self._realpath(old), self._realpath(new))
-        else:
-            fileInfo = self.mountSource.lookup(old)
-            if fileInfo is None:
-                raise fuse.FuseOSError(errno.ENOENT)
-
-            with self.mountSource.open(fileInfo) as sourceObject, open(self._realpath(new), 'wb') as targetObject:
-                shutil.copyfileobj(sourceObject, targetObject)
+        self._remove_leftovers(new)
+        if isFolder:
+            self._remove_if_deleted(new)
+        # Do this first to not hide the moved file when being interrupted in between.
+        self._unmark_as_deleted(new)
+        os.rename(self._realpath(old), self._realpath(new))
+
+        self.sqlConnection.execute('BEGIN')
+        try:
+            self._move_metadata(old, new)
+            if isFolder:
+                for folder, folders, files in os.walk(self._realpath(new)):
+                    subfolder = folder[len(self._realpath(new)) :]
+                    for name in folders + files:
+                        self._move_metadata(f"{old}{subfolder}/{name}", f"{new}{subfolder}/{name}")
+            self.sqlConnection.execute('COMMIT')
+        except BaseException:
+            self.sqlConnection.execute('ROLLBACK')
+            raise
 
-            self._mark_as_deleted(old)
+    def _list_names(self, path: str) -> list[str]:
+        contents = self.mountSource.list_mode(path) or []
+        deleted = self.list_deleted(path)
+        return [name for name in contents if name not in deleted]
+
+    def _is_wholly_in_overlay(self, path: str) -> bool:
+        """Returns true if the folder and everything visible inside it exists in the overlay folder."""
+        if not os.path.lexists(self._realpath(path)):
+            return False
+        if os.path.islink(self._realpath(path)) or not os.path.isdir(self._realpath(path)):
+            return True
+        return all(self._is_wholly_in_overlay(path.rstrip('/') + '/' + name) for name in self._list_names(path))
+
+    def _move_metadata(self, old: str, new: str):
+        newFolder, newName = self._split_path(new)
+        self.sqlConnection.execute('DELETE FROM "files" WHERE path == (?) AND name == (?)', (newFolder, newName))
+        self.sqlConnection.execute(
+            'UPDATE "files" SET path = ?, name = ? WHERE path == (?) AND name == (?)',
+            (newFolder, newName, *self._split_path(old)),
+        )
+        self._mark_as_deleted(old)
 
     # Links
 
-- 
2.43.0


From 47432be292d48b2b56b512caf54fb8582aaa7e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 23/56] fix: File handles opened before the first write to the
 overlay showed old data or leaked

Also fixes short reads, failed writes closing the handle, O_TRUNC with libfuse 3, and the free space being lost.
---
 ratarmount/FuseMount.py    | 49 ++++++++++++++++++++++++++++++++------
 ratarmount/WriteOverlay.py |  6 +++++
 2 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 91a5275..fa5b1c2 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -783,19 +783,29 @@ class FuseMount(fuse.Operations):
             # but store information to reopen it for write access on write calls.
             # @see https://man7.org/linux/man-pages/man2/open.2.html
             # > The argument flags must include one of the following access modes: O_RDONLY, O_WRONLY, or O_RDWR.
-            return self._add_new_handle(self.mountSource.open(fileInfo, buffering=0), flags)
+            handle = self._add_new_handle(self.mountSource.open(fileInfo, buffering=0), flags)
         except Exception as exception:
             logger.error(
                 "Caught exception when trying to open file: %s", fileInfo, exc_info=logger.isEnabledFor(logging.DEBUG)
             )
             raise fuse.FuseOSError(errno.EIO) from exception
 
+        # libfuse 3 does not call truncate itself.
+        if (flags & os.O_TRUNC) and (flags & (os.O_WRONLY | os.O_RDWR)) and self.writeOverlay:
+            try:
+                self.writeOverlay.truncate(path, 0)
+            except BaseException:
+                self.release(path, handle)
+                raise
+
+        return handle
+
     @overrides(fuse.Operations)
     def release(self, path: str, fh) -> int:
         if fh not in self.openedFiles:
             raise fuse.FuseOSError(errno.ESTALE)
 
-        openedFile = self._resolve_file_handle(fh)
+        _, openedFile = self.openedFiles.pop(fh)
         if isinstance(openedFile, int):
             os.close(openedFile)
         else:
@@ -808,12 +818,37 @@ class FuseMount(fuse.Operations):
     def read(self, path: str, size: int, offset: int, fh) -> bytes:
         if fh in self.openedFiles:
             openedFile = self._resolve_file_handle(fh)
+
+            # Switch over to the file in the write overlay if it has been modified since it was opened.
+            if not isinstance(openedFile, int) and self.writeOverlay and self.writeOverlay.is_modified(path):
+                handle = self.writeOverlay.open(path, self.openedFiles[fh][0] & ~os.O_TRUNC)
+                self.openedFiles[fh] = (self.openedFiles[fh][0], handle)
+                openedFile.close()
+                openedFile = handle
+
             if isinstance(openedFile, int):
                 os.lseek(openedFile, offset, os.SEEK_SET)
                 return os.read(openedFile, size)
 
-            openedFile.seek(offset)
-            return openedFile.read(size)
+            try:
+                openedFile.seek(offset)
+                # FUSE interprets short reads as the end of the file, so only return less if the end has been reached.
+                result = openedFile.read(size)
+                while result and len(result) < size:
+                    chunk = openedFile.read(size - len(result))
+                    if not chunk:
+                        break
+                    result += chunk
+                return result
+            except OSError:
+                raise
+            except Exception as exception:
+                logger.error(
+                    "Caught exception %s when trying to read from opened file! Returning errno.EIO.",
+                    exception,
+                    exc_info=logger.isEnabledFor(logging.DEBUG),
+                )
+                raise fuse.FuseOSError(errno.EIO) from exception
 
         # As far as I understand FUSE and my own file handle cache, this should never happen. But you never know.
         logger.warning("Given file handle does not exist. Will open file before reading which might be slow.")
@@ -868,8 +903,8 @@ class FuseMount(fuse.Operations):
                 return openedFile.write(data)
 
             if self.writeOverlay and not isinstance(openedFile, int) and (flags & (os.O_WRONLY | os.O_RDWR)):
+                self.openedFiles[fh] = (flags, self.writeOverlay.open(path, flags & ~os.O_TRUNC))
                 openedFile.close()
-                self.openedFiles[fh] = (flags, self.writeOverlay.open(path, flags))
 
         if self.writeOverlay and self._is_write_overlay_handle(fh):
             return self.writeOverlay.write(path, data, offset, self._resolve_file_handle(fh))
@@ -901,8 +936,8 @@ class FuseMount(fuse.Operations):
             keys = ['f_bsize', 'f_frsize']
             result = self.writeOverlay.statfs(path).copy()
             result.update({key: value for key, value in self.mountSource.statfs().items() if key in keys})
-
-        result = self.mountSource.statfs()
+        else:
+            result = self.mountSource.statfs()
 
         # Use a relatively large minimum 256 KiB block size to direct filesystem users to use larger reads
         # because they have a relative large overhead because of the fusepy, libfuse, kernel FUSE, SQLite,
diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 35f982f..b396cc3 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -354,6 +354,12 @@ class WritableFolderMountSource(fuse.Operations):
             print("[Info] Caught exception when trying to apply metadata to real file.")
             print("[Info] It was applied in the metadata database!")
 
+    def is_modified(self, path: str) -> bool:
+        """Returns true if there is a file for the given path in the overlay folder."""
+        if any(path.startswith(prefix) for prefix in self.ignoredPrefixes):
+            return False
+        return os.path.isfile(self._realpath(path)) and not self.is_deleted(path)
+
     def update_file_info(self, path: str, fileInfo: FileInfo) -> FileInfo:
         folder, name = self._split_path(path)
         row = self.sqlConnection.execute(
-- 
2.43.0


From 4752df4a33f40966a02fc1734a6851beff98f366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 24/56] fix: Keep metadata of truncated files and hard links in
 the write overlay

---
 ratarmount/WriteOverlay.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index b396cc3..459c75e 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -70,7 +70,13 @@ class WritableFolderMountSource(fuse.Operations):
     hiddenDatabaseName = '.ratarmount.overlay.sqlite'
     # For temporary SQLite file suffixes, see https://www.sqlite.org/tempfiles.html
     # The last one is for files from the mount source that are still being copied to the overlay folder.
-    hiddenNames = tuple(hiddenDatabaseName + suffix for suffix in ('', '-journal', '-shm', '-wal', '.partial'))
+    hiddenNames = (
+        hiddenDatabaseName,
+        hiddenDatabaseName + '-journal',
+        hiddenDatabaseName + '-shm',
+        hiddenDatabaseName + '-wal',
+        hiddenDatabaseName + '.partial',
+    )
 
     def __init__(self, path: str, mountSource: MountSource, ignoredPrefixes: Optional[list[str]] = None) -> None:
         if os.path.lexists(path):
@@ -167,7 +173,7 @@ class WritableFolderMountSource(fuse.Operations):
             self._init_file_metadata(parentPath)
             os.mkdir(self._realpath(parentPath))
 
-    def _ensure_file_is_modifiable(self, path, size: Optional[int] = None):
+    def _ensure_file_is_modifiable(self, path, size: Optional[int] = None, keepModificationTime: bool = False):
         """
         Copies the file into the overlay folder if it does not already exist there.
         size: If specified, only this many bytes at the start of the file are required.
@@ -190,7 +196,8 @@ class WritableFolderMountSource(fuse.Operations):
                 if size != 0:
                     with self.mountSource.open(fileInfo) as sourceObject:
                         shutil.copyfileobj(sourceObject, targetObject)
-            os.utime(temporaryPath, (fileInfo.mtime, fileInfo.mtime))
+            if keepModificationTime:
+                os.utime(temporaryPath, (fileInfo.mtime, fileInfo.mtime))
             os.chmod(temporaryPath, stat.S_IMODE(fileInfo.mode) | stat.S_IRUSR | stat.S_IWUSR)
             os.rename(temporaryPath, self._realpath(path))
         except BaseException:
@@ -431,7 +438,7 @@ class WritableFolderMountSource(fuse.Operations):
             self._remove_leftovers(old)
         elif not os.path.lexists(self._realpath(old)):
             if stat.S_ISREG(fileInfo.mode):
-                self._ensure_file_is_modifiable(old)
+                self._ensure_file_is_modifiable(old, keepModificationTime=True)
             elif stat.S_ISLNK(fileInfo.mode):
                 self._ensure_parent_exists(old)
                 self._init_file_metadata(old)
@@ -503,6 +510,10 @@ class WritableFolderMountSource(fuse.Operations):
         self._prepare_creation(target)
         os.link(overlaySource, self._realpath(target))
         self._unmark_as_deleted(target)
+        self.sqlConnection.execute(
+            'INSERT OR REPLACE INTO "files" SELECT ?,?,mtime,mode,uid,gid,deleted FROM "files" WHERE path == ? AND name == ?',
+            (*self._split_path(target), *self._split_path(source)),
+        )
 
     # Folders
 
-- 
2.43.0


From 15847bf43b14e67f6cfc9ce1d820c904fcdda9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 25/56] fix: Show special files in bind-mounted folders with
 the correct type in listings

---
 core/ratarmountcore/mountsource/formats/folder.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/folder.py b/core/ratarmountcore/mountsource/formats/folder.py
index 198453c..c4affa8 100644
--- a/core/ratarmountcore/mountsource/formats/folder.py
+++ b/core/ratarmountcore/mountsource/formats/folder.py
@@ -151,10 +151,16 @@ class FolderMountSource(MountSource):
         # Unfortunately, I am not sure whether it would be sufficient to build the file mode from these
         # two getters. For now, I'd say that all the esoteric stuff is simply not supported.
         def make_mode(dirEntry):
-            mode = stat.S_IFDIR if dirEntry.is_dir(follow_symlinks=False) else stat.S_IFREG
             if dirEntry.is_symlink():
-                mode = stat.S_IFLNK
-            return mode
+                return stat.S_IFLNK
+            if dirEntry.is_dir(follow_symlinks=False):
+                return stat.S_IFDIR
+            if dirEntry.is_file(follow_symlinks=False):
+                return stat.S_IFREG
+            try:
+                return stat.S_IFMT(dirEntry.stat(follow_symlinks=False).st_mode)
+            except OSError:
+                return stat.S_IFREG
 
         return {os.fsdecode(dirEntry.name): make_mode(dirEntry) for dirEntry in os.scandir(realpath)}
 
-- 
2.43.0


From 72974ad8f10334eef82ee8c867fc3880e8418c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 26/56] fix: Union mounts must show files of higher-precedence
 sources in listings and over cached folders

---
 .../mountsource/compositing/union.py               | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/union.py b/core/ratarmountcore/mountsource/compositing/union.py
index 73f56ed..0a51aec 100644
--- a/core/ratarmountcore/mountsource/compositing/union.py
+++ b/core/ratarmountcore/mountsource/compositing/union.py
@@ -106,11 +106,9 @@ class UnionMountSource(MountSource):
         if not path.strip('/'):
             return self.rootFileInfo.clone()
 
-        if path in self.folderCache:
-            # This case might be triggered when path is a folder
-            cachedMountSources = self.folderCache[path]
-        elif self.folderCache and self.folderCacheDepth > 0 and path.startswith('/'):
-            # This should be the most common case, i.e., for regular files. Look up the parent folder in this case.
+        if self.folderCache and self.folderCacheDepth > 0 and path.startswith('/'):
+            # Look up the parent folder even if the path itself is a cached folder because it might be a file
+            # in a mount source with higher precedence.
             parentFolder = '/'.join(path.split('/', self.folderCacheDepth + 1)[:-1])
             if not parentFolder:
                 parentFolder = '/'
@@ -155,6 +153,10 @@ class UnionMountSource(MountSource):
         for mountSource in reversed(self.mountSources):
             result = mountSource.list_mode(path) if onlyMode else mountSource.list(path)
 
+            # Files hide folders in mount sources with lower precedence.
+            if result is None and path.strip('/') and mountSource.exists(path):
+                break
+
             if files is None:
                 if isinstance(result, dict):
                     files = result
@@ -163,7 +165,7 @@ class UnionMountSource(MountSource):
 
             elif isinstance(result, dict):
                 if isinstance(files, dict):
-                    files.update(result)
+                    files = {**result, **files}
                 else:
                     files = files.union(result.keys())
 
-- 
2.43.0


From facd7b8874015a49d6e19aca79273bed5bd93084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 27/56] fix: An interrupted or failed rename in the write
 overlay must not hide or lose files

---
 ratarmount/WriteOverlay.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 459c75e..ff01f60 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -429,6 +429,7 @@ class WritableFolderMountSource(fuse.Operations):
             raise fuse.FuseOSError(errno.ENOENT)
 
         isFolder = stat.S_ISDIR(fileInfo.mode)
+        movedPaths: list[str] = []
         if isFolder:
             # Folders in the mount source can only be moved by moving all files inside. Let the caller do that.
             if not self._is_wholly_in_overlay(old):
@@ -436,6 +437,7 @@ class WritableFolderMountSource(fuse.Operations):
             if not self.is_deleted(new) and self._list_names(new):
                 raise fuse.FuseOSError(errno.ENOTEMPTY)
             self._remove_leftovers(old)
+            movedPaths = self._list_overlay_contents(old)
         elif not os.path.lexists(self._realpath(old)):
             if stat.S_ISREG(fileInfo.mode):
                 self._ensure_file_is_modifiable(old, keepModificationTime=True)
@@ -452,22 +454,31 @@ class WritableFolderMountSource(fuse.Operations):
         if isFolder:
             self._remove_if_deleted(new)
         # Do this first to not hide the moved file when being interrupted in between.
-        self._unmark_as_deleted(new)
+        with self._transaction():
+            for path in ['', *movedPaths]:
+                self._unmark_as_deleted(new + path)
         os.rename(self._realpath(old), self._realpath(new))
+        with self._transaction():
+            for path in ['', *movedPaths]:
+                self._move_metadata(old + path, new + path)
 
+    @contextlib.contextmanager
+    def _transaction(self):
         self.sqlConnection.execute('BEGIN')
         try:
-            self._move_metadata(old, new)
-            if isFolder:
-                for folder, folders, files in os.walk(self._realpath(new)):
-                    subfolder = folder[len(self._realpath(new)) :]
-                    for name in folders + files:
-                        self._move_metadata(f"{old}{subfolder}/{name}", f"{new}{subfolder}/{name}")
+            yield
             self.sqlConnection.execute('COMMIT')
         except BaseException:
             self.sqlConnection.execute('ROLLBACK')
             raise
 
+    def _list_overlay_contents(self, path: str) -> list[str]:
+        """Lists paths to everything inside the overlay folder beneath path and relative to it."""
+        root = self._realpath(path)
+        return [
+            f"{folder[len(root) :]}/{name}" for folder, folders, files in os.walk(root) for name in folders + files
+        ]
+
     def _list_names(self, path: str) -> list[str]:
         contents = self.mountSource.list_mode(path) or []
         deleted = self.list_deleted(path)
-- 
2.43.0


From 76b5beae4c591b04aea1b254377b97fe07257742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 28/56] fix: Renaming over archive paths in the write overlay
 must not show replaced files when interrupted

---
 ratarmount/WriteOverlay.py | 44 ++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index ff01f60..cde29fc 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -376,11 +376,16 @@ class WritableFolderMountSource(fuse.Operations):
         if not row:
             return fileInfo
 
+        # The file type never changes for existing files and is not stored for all of them.
+        mode = fileInfo.mode
+        if row['mode'] is not None:
+            mode = stat.S_IFMT(mode) | stat.S_IMODE(row['mode'])
+
         # fmt: off
         return FileInfo(
             size     = fileInfo.size,
             mtime    = row['mtime'] if row['mtime'] is not None else fileInfo.mtime,
-            mode     = row['mode'] if row['mode'] is not None else fileInfo.mode,
+            mode     = mode,
             linkname = fileInfo.linkname,
             uid      = row['uid'] if row['uid'] is not None else fileInfo.uid,
             gid      = row['gid'] if row['gid'] is not None else fileInfo.gid,
@@ -451,16 +456,43 @@ class WritableFolderMountSource(fuse.Operations):
 
         self._ensure_parent_exists(new)
         self._remove_leftovers(new)
+        self._remove_if_deleted(new)
         if isFolder:
-            self._remove_if_deleted(new)
-        # Do this first to not hide the moved file when being interrupted in between.
+            # Nothing else may appear at either path when being interrupted between moving the folder and its metadata.
+            if self.mountSource.versions(old) > 1 or any(self.is_deleted(new + path) for path in ['', *movedPaths]):
+                raise fuse.FuseOSError(errno.EXDEV)
+            os.rename(self._realpath(old), self._realpath(new))
+        else:
+            if os.path.lexists(self._realpath(new)) and os.path.samestat(
+                os.lstat(self._realpath(old)), os.lstat(self._realpath(new))
+            ):
+                return  # Both are hard links to the same file already.
+
+            # Keep the old path until its removal has been recorded or else a file in the mount source might reappear.
+            temporaryPath = os.path.join(self.root, self.hiddenDatabaseName + '.partial')
+            with contextlib.suppress(FileNotFoundError):
+                os.unlink(temporaryPath)
+            try:
+                os.link(self._realpath(old), temporaryPath, follow_symlinks=False)
+            except OSError:
+                # Hard links might not be supported.
+                os.rename(self._realpath(old), self._realpath(new))
+            else:
+                try:
+                    os.rename(temporaryPath, self._realpath(new))
+                except BaseException:
+                    with contextlib.suppress(OSError):
+                        os.unlink(temporaryPath)
+                    raise
+
         with self._transaction():
             for path in ['', *movedPaths]:
                 self._unmark_as_deleted(new + path)
-        os.rename(self._realpath(old), self._realpath(new))
-        with self._transaction():
-            for path in ['', *movedPaths]:
                 self._move_metadata(old + path, new + path)
+        if os.path.lexists(self._realpath(old)):
+            with contextlib.suppress(OSError):
+                os.unlink(self._realpath(old))
+            self._mark_as_deleted(old)
 
     @contextlib.contextmanager
     def _transaction(self):
-- 
2.43.0


From 6c69e90471589955a6b6cc9a7ff3bd08145eb88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:23 +0000
Subject: [PATCH 29/56] fix: Block-parallel readers must recover from temporary
 read errors

---
 core/ratarmountcore/BlockParallelReaders.py | 24 +++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/BlockParallelReaders.py b/core/ratarmountcore/BlockParallelReaders.py
index b83b0b5..d2be0c7 100644
--- a/core/ratarmountcore/BlockParallelReaders.py
+++ b/core/ratarmountcore/BlockParallelReaders.py
@@ -358,9 +358,19 @@ class ParallelXZReader(BlockParallelReader):
         _parallelXzReaderFile.seek(offset)
         return _parallelXzReaderFile.read(size)
 
+    @staticmethod
+    def _decode_block_or_reset(filename, offset, size):
+        global _parallelXzReaderFile  # pylint: disable=global-statement
+        try:
+            return ParallelXZReader._decode_block(filename, offset, size)
+        except Exception:
+            # Open the file anew next time because the decoder might not recover from, e.g., temporary I/O errors.
+            _parallelXzReaderFile = None
+            raise
+
     @overrides(io.BufferedIOBase)
     def read(self, size: int = -1) -> bytes:
-        return super()._read(size, ParallelXZReader._decode_block)
+        return super()._read(size, ParallelXZReader._decode_block_or_reset)
 
     def find_block(self, offset) -> Optional[int]:
         """
@@ -392,6 +402,16 @@ class ParallelZstdReader(BlockParallelReader):
         _parallelZstdReaderFile.seek(offset)
         return _parallelZstdReaderFile.read(size)
 
+    @staticmethod
+    def _decode_block_or_reset(filename, offset, size):
+        global _parallelZstdReaderFile  # pylint: disable=global-statement
+        try:
+            return ParallelZstdReader._decode_block(filename, offset, size)
+        except Exception:
+            # Open the file anew next time because the decoder might not recover from, e.g., temporary I/O errors.
+            _parallelZstdReaderFile = None
+            raise
+
     @overrides(io.BufferedIOBase)
     def read(self, size: int = -1) -> bytes:
-        return super()._read(size, ParallelZstdReader._decode_block)
+        return super()._read(size, ParallelZstdReader._decode_block_or_reset)
-- 
2.43.0


From 17878ee58d49ee1799eb5cd9c8e646c01bb855eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:47 +0000
Subject: [PATCH 30/56] fix: Resolve hard links to names starting with ./ in
 union mounts and write overlays

---
 .../ratarmountcore/mountsource/compositing/versioning.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/versioning.py b/core/ratarmountcore/mountsource/compositing/versioning.py
index 73f6cbf..97efbd8 100644
--- a/core/ratarmountcore/mountsource/compositing/versioning.py
+++ b/core/ratarmountcore/mountsource/compositing/versioning.py
@@ -97,6 +97,11 @@ class FileVersionLayer(MountSource):
         # return false for S_ISLNK but still have a linkname!
         return bool(not stat.S_ISREG(fileInfo.mode) and not stat.S_ISLNK(fileInfo.mode) and fileInfo.linkname)
 
+    @staticmethod
+    def _get_hard_link_target(fileInfo: FileInfo) -> Optional[str]:
+        # Normalize because the link name may begin with "./" and not all mount sources can look up such paths.
+        return os.path.normpath('/' + fileInfo.linkname.lstrip('/')) if FileVersionLayer._is_hard_link(fileInfo) else None
+
     @staticmethod
     def _resolve_hard_links(mountSource: MountSource, path: str) -> Optional[FileInfo]:
         """path : Simple path. Should contain no special versioning folders!"""
@@ -105,7 +110,7 @@ class FileVersionLayer(MountSource):
         if not fileInfo:
             return None
 
-        resolvedPath = '/' + fileInfo.linkname.lstrip('/') if FileVersionLayer._is_hard_link(fileInfo) else None
+        resolvedPath = FileVersionLayer._get_hard_link_target(fileInfo)
         fileVersion = 0
         hardLinkCount = 0
 
@@ -140,7 +145,7 @@ class FileVersionLayer(MountSource):
             if not fileInfo:
                 return None
 
-            resolvedPath = '/' + fileInfo.linkname.lstrip('/') if FileVersionLayer._is_hard_link(fileInfo) else None
+            resolvedPath = FileVersionLayer._get_hard_link_target(fileInfo)
             hardLinkCount += 1
 
         return fileInfo
-- 
2.43.0


From 03717f14eaa76cd74c7ea7e08cae72eb15ff5bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:10 +0000
Subject: [PATCH 31/56] fix: Committing a write overlay must not damage the
 archive when interrupted and must match the mounted view

---
 README.md                  |   8 +-
 ratarmount/WriteOverlay.py | 316 ++++++++++++++++++++++++-------------
 2 files changed, 212 insertions(+), 112 deletions(-)

diff --git a/README.md b/README.md
index 1176a69..21b19b6 100644
--- a/README.md
+++ b/README.md
@@ -685,10 +685,10 @@ Here is an example for applying modifications to a writable mount and then commi
     ```bash
     To commit the overlay folder to the archive, these commands have to be executed:
     
-        tar --delete --null --verbatim-files-from --files-from='/tmp/tmp_ajfo8wf/deletions.lst' \
-            --file 'example.tar' 2>&1 |
-           sed '/^tar: Exiting with failure/d; /^tar.*Not found in archive/d'
-        tar --append -C 'zlib-wiki-overlay' --null --verbatim-files-from --files-from='/tmp/tmp_ajfo8wf/append.lst' --file 'example.tar'
+        tar --delete --null --no-unquote --no-recursion --files-from='/tmp/tmp_ajfo8wf/deletions.lst' \
+            --force-local --file '/home/user/example.tar'
+        tar --append -C '/home/user/example-overlay' --null --no-unquote --no-recursion \
+            --files-from='/tmp/tmp_ajfo8wf/append.lst' --force-local --file '/home/user/example.tar'
 
     Committing is an experimental feature!
     Please confirm by entering "commit". Any other input will cancel.
diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index cde29fc..d7572b8 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -11,8 +11,8 @@ import tempfile
 import time
 import traceback
 import urllib.parse
-from collections.abc import Mapping
-from typing import Any, Callable, Optional
+from collections.abc import Iterable, Mapping
+from typing import Any, Callable, Optional, Union
 
 from ratarmountcore.formats import is_tar
 from ratarmountcore.mountsource import FileInfo, MountSource
@@ -666,6 +666,77 @@ class WritableFolderMountSource(fuse.Operations):
         return self._statfs.copy()
 
 
+def _normalize_member_name(name: str) -> str:
+    return os.path.normpath('/' + name).lstrip('/')
+
+
+def _get_parents(path: str) -> Iterable[str]:
+    while '/' in path:
+        path = path.rsplit('/', 1)[0]
+        yield path
+
+
+def _raise(exception: OSError) -> None:
+    raise exception
+
+
+def _get_overlay_paths(writeOverlay: str) -> tuple[set[str], list[str], list[str]]:
+    """
+    Returns the paths marked as deleted, and the folders and all other files in the overlay.
+    Paths are relative to the overlay and without leading slash.
+    """
+    deleted: set[str] = set()
+    databasePath = os.path.join(writeOverlay, WritableFolderMountSource.hiddenDatabaseName)
+    if os.path.exists(databasePath):
+        uriPath = urllib.parse.quote(databasePath)
+        with contextlib.closing(sqlite3.connect(f"file:{uriPath}?mode=ro", uri=True)) as sqlConnection:
+            for path, name in sqlConnection.execute("SELECT path,name FROM files WHERE deleted == 1;"):
+                deleted.add(_normalize_member_name(f"{path}/{name}"))
+
+    # Interrupted operations can leave files behind, which are marked as deleted. They must not be committed.
+    folders: list[str] = []
+    files: list[str] = []
+    for dirpath, folderNames, fileNames in os.walk(writeOverlay, onerror=_raise):
+        relativePath = os.path.relpath(dirpath, writeOverlay)
+        for name in sorted(folderNames):
+            path = _normalize_member_name(f"{relativePath}/{name}")
+            if path in deleted:
+                folderNames.remove(name)
+            elif os.path.islink(os.path.join(dirpath, name)):
+                files.append(path)
+            else:
+                folders.append(path)
+        for name in sorted(fileNames):
+            path = _normalize_member_name(f"{relativePath}/{name}")
+            if path not in deleted and path not in WritableFolderMountSource.hiddenNames:
+                files.append(path)
+
+    return deleted, folders, files
+
+
+def _append_hard_link(
+    oldArchive: tarfile.TarFile, newArchive: tarfile.TarFile, member: tarfile.TarInfo, target: Union[str, tarfile.TarInfo]
+) -> None:
+    newMember = tarfile.TarInfo(member.name)
+    for key in ['mode', 'uid', 'gid', 'uname', 'gname', 'mtime']:
+        setattr(newMember, key, getattr(member, key))
+
+    if isinstance(target, str):
+        newMember.type = tarfile.LNKTYPE
+        newMember.linkname = target
+        newArchive.addfile(newMember)
+        return
+
+    newMember.pax_headers = {k: v for k, v in target.pax_headers.items() if k.startswith('SCHILY.xattr.')}
+    if target.isreg():
+        newMember.size = target.size
+        newArchive.addfile(newMember, oldArchive.extractfile(target))
+    else:
+        for key in ['type', 'linkname', 'devmajor', 'devminor']:
+            setattr(newMember, key, getattr(target, key))
+        newArchive.addfile(newMember)
+
+
 def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCODING, printDebug: int = 0) -> None:
     if not os.path.isdir(writeOverlay):
         raise RatarmountError("Need an existing write overlay folder for committing changes.")
@@ -684,57 +755,85 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
     except Exception as exception:
         raise RatarmountError("Currently, GNU tar must be installed and discoverable as 'tar'.") from exception
 
-    # Delete all files marked for deletion
-    tmpFolder = tempfile.mkdtemp()
+    # Absolute paths cannot be mistaken for command line arguments.
+    writeOverlay = os.path.realpath(writeOverlay)
+    tarFile = os.path.realpath(tarFile)
+
+    with tempfile.TemporaryDirectory() as tmpFolder, tarfile.open(tarFile, 'r:', encoding=encoding) as archive:
+        _commit_overlay(writeOverlay, tarFile, archive, tmpFolder, encoding, printDebug)
+
+
+def _commit_overlay(
+    writeOverlay: str, tarFile: str, archive: tarfile.TarFile, tmpFolder: str, encoding: str, printDebug: int
+) -> None:
+    deleted, overlayFolders, overlayFiles = _get_overlay_paths(writeOverlay)
+    filesToAdd = set(overlayFiles)
+    toDelete = deleted | filesToAdd
+    replacedByFolder = set(overlayFolders)
+
+    # The names to be deleted have to be exactly as stored in the archive, e.g., with leading slashes, because GNU tar
+    # matches exactly while ratarmount does not discern between these cases. It deletes all members with that name.
+    members = [(_normalize_member_name(member.name), member) for member in archive]
+    namesToDelete = set()
+    for path, member in members:
+        if (
+            path in toDelete
+            or any(parent in toDelete for parent in _get_parents(path))
+            or (path in replacedByFolder and not member.isdir())
+        ):
+            namesToDelete.add(member.name)
+    deletedPaths = {_normalize_member_name(name) for name in namesToDelete}
+
+    # Hard links refer by name to the newest version of the target. If that is in the overlay, they must be moved behind
+    # it, and if it will be deleted, they have to be replaced with the contents of the target.
+    versions: dict[str, list[tarfile.TarInfo]] = {}
+    for path, member in members:
+        versions.setdefault(path, []).append(member)
+    hardLinks: list[tuple[tarfile.TarInfo, Union[str, tarfile.TarInfo]]] = []
+    for memberPath in versions:
+        member = target = versions[memberPath][-1]
+        path = memberPath
+        version = 0
+        losesTarget = False
+        if member.name in namesToDelete:
+            continue
+        for _ in range(128):  # Same maximum number of links to follow as in FileVersionLayer.
+            if not target.islnk():
+                break
+            linkPath = _normalize_member_name(target.linkname)
+            version = version + 1 if linkPath == path else 0
+            path = linkPath
+            if path in filesToAdd:
+                hardLinks.append((member, path))
+                break
+            if len(versions.get(path, [])) <= version:
+                break
+            losesTarget = losesTarget or path in deletedPaths
+            target = versions[path][-1 - version]
+        if losesTarget and not target.islnk():
+            hardLinks.append((member, target))
+    namesToDelete.update(member.name for member, _ in hardLinks)
+
+    # Folders may only exist implicitly because of other members. Add those that would vanish and also new ones.
+    members = [(path, member) for path, member in members if path]
+    keptPaths = {path for path, member in members if member.name not in namesToDelete}
+    keptPaths.update(overlayFiles)
+    keptPaths.update(_normalize_member_name(member.name) for member, _ in hardLinks)
+    existingFolders = {path for path, member in members if member.isdir()}.intersection(keptPaths)
+    existingFolders.update(parent for path in keptPaths for parent in _get_parents(path))
+    newFolders = [path for path in overlayFolders if path not in existingFolders]
+    vanishedFolders = {parent for path, _ in members for parent in _get_parents(path)}
+    vanishedFolders.difference_update(existingFolders, overlayFolders)
+    vanishedFolders = {path for path in vanishedFolders if not toDelete.intersection([path, *_get_parents(path)])}
+
     deletionList = os.path.join(tmpFolder, "deletions.lst")
     appendList = os.path.join(tmpFolder, "append.lst")
+    for listPath, names in [(deletionList, sorted(namesToDelete)), (appendList, newFolders + overlayFiles)]:
+        with open(listPath, 'wb') as listFile:
+            for name in names:
+                listFile.write(name.encode(encoding, 'surrogateescape') + b'\0')
 
-    def add_to_deletion_file(deletionListFile, pathRelativeToRoot: str):
-        # Delete with and without leading slash because GNU tar matches exactly while
-        # ratarmount does not discern between these two cases.
-        deletionListFile.write(f"{pathRelativeToRoot}\0")
-        deletionListFile.write(f"/{pathRelativeToRoot}\0")
-        deletionListFile.write(f"./{pathRelativeToRoot}\0")
-
-    databasePath = os.path.join(writeOverlay, WritableFolderMountSource.hiddenDatabaseName)
-    if os.path.exists(databasePath):
-        uriPath = urllib.parse.quote(databasePath)
-        sqlConnection = sqlite3.connect(f"file:{uriPath}?mode=ro", uri=True)
-
-        with open(deletionList, 'a', encoding=encoding) as deletionListFile:
-            for path, name in sqlConnection.execute("SELECT path,name FROM files WHERE deleted == 1;"):
-                add_to_deletion_file(deletionListFile, f"{path}/{name}".lstrip('/'))
-
-    # Delete all files to be replaced with other files
-    with (
-        open(deletionList, 'a', encoding=encoding) as deletionListFile,
-        open(appendList, 'a', encoding=encoding) as appendListFile,
-    ):
-        toBeIgnored = WritableFolderMountSource.hiddenNames
-
-        writeOverlayWithTrailingSlash = writeOverlay
-        if not writeOverlayWithTrailingSlash.endswith('/'):
-            writeOverlayWithTrailingSlash += '/'
-
-        for dirpath, _, filenames in os.walk(writeOverlay, topdown=False):
-            # dirpath should be a relative path (without leading slash) as seen from the overlay folder
-            if dirpath.startswith(writeOverlayWithTrailingSlash):
-                dirpath = dirpath[len(writeOverlayWithTrailingSlash) :]
-            elif dirpath == writeOverlay:
-                dirpath = ""
-
-            for name in filenames:
-                pathRelativeToRoot = f"{dirpath}/{name}".lstrip('/')
-                if pathRelativeToRoot in toBeIgnored:
-                    continue
-                add_to_deletion_file(deletionListFile, pathRelativeToRoot)
-                appendListFile.write(f"{pathRelativeToRoot}\0")
-
-            # Append empty folders
-            if not filenames and dirpath:
-                appendListFile.write(f"{dirpath}\0")
-
-    if os.stat(deletionList).st_size == 0 and os.stat(appendList).st_size == 0:
+    if not namesToDelete and not newFolders and not overlayFiles:
         if printDebug >= 1:
             print("Nothing to commit.")
         return
@@ -742,81 +841,82 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
     # TODO Support compressed archives by maybe using tarfile to read from the original and write to a temporary?
     #      GNU tar does not support --delete on compressed archives unfortunately:
     #      > This option does not operate on compressed archives.
-    # Suppress file not found errors because the alternative would be to manually check all files
-    # to be updated whether they already exist in the archive or not.
     if printDebug >= 1:
         print("To commit the overlay folder to the archive, these commands have to be executed:")
         print()
 
         if os.stat(deletionList).st_size > 0:
-            print(f"    tar --delete --null --verbatim-files-from --files-from='{deletionList}' \\")
-            print(f"        --file '{tarFile}' 2>&1 |")
-            print("       sed '/^tar: Exiting with failure/d; /^tar.*Not found in archive/d'")
+            print(f"    tar --delete --null --no-unquote --no-recursion --files-from='{deletionList}' \\")
+            print(f"        --force-local --file '{tarFile}'")
 
         if os.stat(appendList).st_size > 0:
-            print(
-                f"    tar --append -C '{writeOverlay}' --null --verbatim-files-from --files-from='{appendList}' "
-                f"--file '{tarFile}'"
-            )
+            print(f"    tar --append -C '{writeOverlay}' --null --no-unquote --no-recursion \\")
+            print(f"        --files-from='{appendList}' --force-local --file '{tarFile}'")
+
+        for member, _ in hardLinks:
+            print(f"    # Append '{member.name}', which is a hard link to a changed or deleted file.")
+        for path in sorted(vanishedFolders):
+            print(f"    # Append empty folder '{path}'.")
         print()
 
-    def run_without_locale(*args, check=True, **kwargs):
+    def run_tar(*args):
         adjustedEnvironment = os.environ.copy()
         for key in [k for k in adjustedEnvironment if k.startswith('LC_')]:
             del adjustedEnvironment[key]
         adjustedEnvironment['LC_LANG'] = 'C'
         adjustedEnvironment['LANGUAGE'] = 'C'
-        return subprocess.run(*args, env=adjustedEnvironment, check=check, **kwargs)
+        subprocess.run(["tar", *args, "--force-local", "--file", temporaryTar], env=adjustedEnvironment, check=True)
 
     if printDebug >= 1:
         print("Committing is an experimental feature!")
     print('Please confirm by entering "commit". Any other input will cancel.')
     print("> ", end='')
-    try:
-        if input() == 'commit':
-            if os.stat(deletionList).st_size > 0:
-                tarDelete = run_without_locale(
-                    [
-                        "tar",
-                        "--delete",
-                        "--null",
-                        f"--files-from={deletionList}",
-                        "--file",
-                        tarFile,
-                    ],
-                    check=False,
-                    stderr=subprocess.PIPE,
-                )
-
-                unfilteredLines = [
-                    line
-                    for line in tarDelete.stderr.decode().split("\n")
-                    if 'tar: Exiting with failure' not in line and 'Not found in archive' not in line and line.strip()
-                ]
-
-                if unfilteredLines:
-                    for line in unfilteredLines:
-                        print(line)
-                    raise RatarmountError("There were problems when trying to delete files.")
-
-            if os.stat(appendList).st_size > 0:
-                run_without_locale(
-                    [
-                        "tar",
-                        "--append",
-                        "-C",
-                        writeOverlay,
-                        "--null",
-                        f"--files-from={appendList}",
-                        "--file",
-                        tarFile,
-                    ],
-                    check=True,
-                )
-
-            if printDebug >= 1:
-                print(f"Committed successfully. You can now remove the overlay folder at {writeOverlay}.")
-        elif printDebug >= 1:
+    if input() != 'commit':
+        if printDebug >= 1:
             print("Canceled")
-    finally:
-        shutil.rmtree(tmpFolder)
+        return
+
+    # Work on a copy because else an error or interruption might leave behind a damaged archive.
+    fileDescriptor, temporaryTar = tempfile.mkstemp(
+        dir=os.path.dirname(tarFile), prefix='.' + os.path.basename(tarFile) + '.', suffix='.tmp'
+    )
+    try:
+        os.close(fileDescriptor)
+        shutil.copyfile(tarFile, temporaryTar)
+
+        if os.stat(deletionList).st_size > 0:
+            run_tar("--delete", "--null", "--no-unquote", "--no-recursion", f"--files-from={deletionList}")
+
+        if os.stat(appendList).st_size > 0:
+            run_tar(
+                *["--append", "-C", writeOverlay, "--null", "--no-unquote", "--no-recursion"],
+                f"--files-from={appendList}",
+            )
+
+        if hardLinks or vanishedFolders:
+            with tarfile.open(temporaryTar, 'a:', encoding=encoding) as newArchive:
+                for member, target in hardLinks:
+                    _append_hard_link(archive, newArchive, member, target)
+                for path in sorted(vanishedFolders):
+                    newMember = tarfile.TarInfo(path)
+                    newMember.type = tarfile.DIRTYPE
+                    newMember.mode = 0o755
+                    newMember.mtime = int(os.stat(tarFile).st_mtime)
+                    newArchive.addfile(newMember)
+
+        stats = os.stat(tarFile)
+        os.chmod(temporaryTar, stat.S_IMODE(stats.st_mode))
+        with contextlib.suppress(PermissionError):
+            os.chown(temporaryTar, stats.st_uid, stats.st_gid)
+        with open(temporaryTar, 'rb') as file:
+            os.fsync(file.fileno())
+        os.replace(temporaryTar, tarFile)
+    except BaseException as exception:
+        with contextlib.suppress(OSError):
+            os.unlink(temporaryTar)
+        if isinstance(exception, subprocess.CalledProcessError):
+            raise RatarmountError("There were problems when trying to commit. The archive was not changed.") from exception
+        raise
+
+    if printDebug >= 1:
+        print(f"Committed successfully. You can now remove the overlay folder at {writeOverlay}.")
-- 
2.43.0


From c9fb1892ce8ac275c49ba861f634f33465488e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:06 +0000
Subject: [PATCH 32/56] fix: Listings of union mounts must agree with lookups
 for files and links hiding folders

---
 .../mountsource/compositing/union.py               | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/union.py b/core/ratarmountcore/mountsource/compositing/union.py
index 0a51aec..1e908fc 100644
--- a/core/ratarmountcore/mountsource/compositing/union.py
+++ b/core/ratarmountcore/mountsource/compositing/union.py
@@ -151,11 +151,17 @@ class UnionMountSource(MountSource):
         files: Optional[Union[set[str], dict[str, FileInfo], dict[str, int]]] = None
 
         for mountSource in reversed(self.mountSources):
-            result = mountSource.list_mode(path) if onlyMode else mountSource.list(path)
+            # Files and links hide folders in mount sources with lower precedence. But, if the path is a folder in the mount
+            # source with the highest precedence, then all folders are merged, as is also done by lookup.
+            fileInfo = mountSource.lookup(path) if path.strip('/') else None
+            if fileInfo is not None and not stat.S_ISDIR(fileInfo.mode):
+                if files is None:
+                    break
+                continue
 
-            # Files hide folders in mount sources with lower precedence.
-            if result is None and path.strip('/') and mountSource.exists(path):
-                break
+            result = mountSource.list_mode(path) if onlyMode else mountSource.list(path)
+            if result is None and fileInfo is not None:
+                result = {}  # Empty folder
 
             if files is None:
                 if isinstance(result, dict):
-- 
2.43.0


From 7a8c74a54657d122014175c581a64c051f1aeb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:28 +0000
Subject: [PATCH 33/56] fix: Listings of union mounts with trailing slash must
 not follow links

---
 core/ratarmountcore/mountsource/compositing/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/union.py b/core/ratarmountcore/mountsource/compositing/union.py
index 1e908fc..b60c4c5 100644
--- a/core/ratarmountcore/mountsource/compositing/union.py
+++ b/core/ratarmountcore/mountsource/compositing/union.py
@@ -153,7 +153,7 @@ class UnionMountSource(MountSource):
         for mountSource in reversed(self.mountSources):
             # Files and links hide folders in mount sources with lower precedence. But, if the path is a folder in the mount
             # source with the highest precedence, then all folders are merged, as is also done by lookup.
-            fileInfo = mountSource.lookup(path) if path.strip('/') else None
+            fileInfo = mountSource.lookup(path.rstrip('/')) if path.strip('/') else None
             if fileInfo is not None and not stat.S_ISDIR(fileInfo.mode):
                 if files is None:
                     break
-- 
2.43.0


From 0d856eefd3acc8719fa5a8c0113aacfeb7be2642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 34/56] fix: File infos in listings of mounted folders must
 refer to the listed files

---
 .../mountsource/formats/folder.py             | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/folder.py b/core/ratarmountcore/mountsource/formats/folder.py
index c4affa8..8fd7fa3 100644
--- a/core/ratarmountcore/mountsource/formats/folder.py
+++ b/core/ratarmountcore/mountsource/formats/folder.py
@@ -81,14 +81,14 @@ class FolderMountSource(MountSource):
         )
         # fmt: on
 
-    @staticmethod
-    def _dir_entry_to_file_info(dirEntry: os.DirEntry, path: str, realpath: str):
+    def _dir_entry_to_file_info(self, dirEntry: os.DirEntry, path: str) -> Optional[FileInfo]:
+        """path: Path to the entry relative to the folder root, as it would be given to lookup."""
+        if dirEntry.is_symlink():
+            return self.lookup(path)
         try:
-            linkname = os.readlink(realpath) if dirEntry.is_symlink() else ""
-        except OSError:
-            linkname = ""
-
-        return FolderMountSource._stats_to_file_info(dirEntry.stat(follow_symlinks=False), linkname, path)
+            return self._stats_to_file_info(dirEntry.stat(follow_symlinks=False), path.lstrip('/'), "")
+        except FileNotFoundError:
+            return None
 
     @overrides(MountSource)
     def is_immutable(self) -> bool:
@@ -133,10 +133,15 @@ class FolderMountSource(MountSource):
         if not os.path.isdir(realpath):
             return None
 
-        return {
-            os.fsdecode(dirEntry.name): FolderMountSource._dir_entry_to_file_info(dirEntry, path, realpath)
-            for dirEntry in os.scandir(realpath)
-        }
+        prefix = path.strip('/') + '/' if path.strip('/') else ''
+        result: dict[str, FileInfo] = {}
+        with os.scandir(realpath) as entries:
+            for dirEntry in entries:
+                name = os.fsdecode(dirEntry.name)
+                fileInfo = self._dir_entry_to_file_info(dirEntry, prefix + name)
+                if fileInfo is not None:
+                    result[name] = fileInfo
+        return result
 
     @overrides(MountSource)
     def list_mode(self, path: str) -> Optional[Union[Iterable[str], dict[str, int]]]:
-- 
2.43.0


From e603c761481a6f8ba32b934ee0c53304312a4c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 35/56] fix: Close nested archives before the archives
 containing them

Otherwise, rapidgzip aborts the whole process on unmounting. Also do not replace files inside TARs that only are named like TARs with empty folders.
---
 core/ratarmountcore/mountsource/compositing/automount.py | 4 +++-
 core/ratarmountcore/mountsource/formats/tar.py           | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/automount.py b/core/ratarmountcore/mountsource/compositing/automount.py
index 1c6c283..35f4b07 100644
--- a/core/ratarmountcore/mountsource/compositing/automount.py
+++ b/core/ratarmountcore/mountsource/compositing/automount.py
@@ -414,7 +414,9 @@ class AutoMountLayer(MountSource):
 
     @overrides(MountSource)
     def __exit__(self, exception_type, exception_value, exception_traceback):
-        for mountInfo in self.mounted.values():
+        # Close nested mount sources before those they read from. Some backends still access the file on closing
+        # and may even abort the whole process if it already is closed.
+        for mountInfo in reversed(list(self.mounted.values())):
             mountInfo.mountSource.__exit__(exception_type, exception_value, exception_traceback)
 
     def join_threads(self):
diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index f3a87f8..73b669e 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -896,6 +896,10 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
             # This would also save some indirections to speed up accesses.
             tarFileObject = StenciledFile([(self.tarFileObject, globalOffset, size)])
 
+            # Files that only are named like TARs must stay accessible instead of being replaced by empty folders.
+            if not might_be_format(tarFileObject, FileFormatID.TAR):
+                continue
+
             isTar = False
             try:
                 # Do not use os.path.join here because the leading / might be missing.
-- 
2.43.0


From a3978547787f5aff045fb43944a44043394bdb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 36/56] fix: A read error during format detection must not
 abort the process

---
 core/ratarmountcore/formats.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/ratarmountcore/formats.py b/core/ratarmountcore/formats.py
index 67f1ac9..96a579e 100644
--- a/core/ratarmountcore/formats.py
+++ b/core/ratarmountcore/formats.py
@@ -22,6 +22,7 @@ See:
  - https://en.wikipedia.org/wiki/List_of_archive_formats
 """
 
+import io
 import contextlib
 import dataclasses
 import enum
@@ -305,6 +306,10 @@ def _check_deflate(fileobj: IO[bytes]) -> bool:
     if not callable(determineFileType):
         return False
 
+    # Rapidgzip aborts the whole process when the file object raises an exception, e.g., because of an I/O error.
+    # Therefore, read everything necessary for the checks beforehand.
+    fileobj = io.BytesIO(fileobj.read(1024 * 1024))
+
     if determineFileType(fileobj).lower() != 'deflate':
         return False
 
-- 
2.43.0


From 9c15fd3492b84b93273e093617882e058379bb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 37/56] fix: Reading from XZ files must work again after a
 temporary read error

python-xz keeps the decoder state of blocks for which reading raised an
exception and then fails for all subsequent reads from those blocks.
---
 core/ratarmountcore/compressions.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/compressions.py b/core/ratarmountcore/compressions.py
index bcf7c11..25972ee 100644
--- a/core/ratarmountcore/compressions.py
+++ b/core/ratarmountcore/compressions.py
@@ -87,6 +87,24 @@ class CompressionBackendInfo:
     delegatedArchiveBackend: str
 
 
+def _open_xz(fileObject) -> IO[bytes]:
+    class RecoveringXZFile(xz.XZFile):
+        """
+        After an exception, e.g., because of a temporary I/O error, the decoder states of python-xz are broken
+        and would raise for all following reads from the affected blocks.
+        """
+
+        def read(self, size: int = -1) -> bytes:
+            try:
+                return super().read(size)
+            except Exception:
+                for block in list(getattr(self.block_read_strategy, 'block_reads', ())):
+                    block.clear()
+                raise
+
+    return cast(IO[bytes], RecoveringXZFile(fileObject))
+
+
 COMPRESSION_BACKENDS: dict[str, CompressionBackendInfo] = {
     'rapidgzip-bzip2': CompressionBackendInfo(
         (lambda x, parallelization=0: rapidgzip.IndexedBzip2File(x, parallelization=parallelization)),
@@ -108,7 +126,7 @@ COMPRESSION_BACKENDS: dict[str, CompressionBackendInfo] = {
     ),
     # Prioritize xz over lzmaffi
     'xz': CompressionBackendInfo(
-        (lambda x, parallelization=1: cast(IO[bytes], xz.open(x))), {FID.XZ}, [('xz', 'python-xz')], 'tarfile'
+        (lambda x, parallelization=1: _open_xz(x)), {FID.XZ}, [('xz', 'python-xz')], 'tarfile'
     ),
     'lzmaffi': CompressionBackendInfo(
         (lambda x, parallelization=1: lzmaffi.open(x)), {FID.XZ}, [('lzmaffi', 'lzmaffi')], 'tarfile'
-- 
2.43.0


From f409b612dbfe6132458bba44dba9e331293fb6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 38/56] fix: System errors must not be mistaken for unsupported
 archive formats

When opening an archive with one backend failed with, e.g., EIO or ENOMEM,
the remaining backends were tried, one of which might then show the archive
differently, e.g., as a single file instead of its contents.
---
 core/ratarmountcore/mountsource/factory.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/ratarmountcore/mountsource/factory.py b/core/ratarmountcore/mountsource/factory.py
index 9b9b902..3739b72 100644
--- a/core/ratarmountcore/mountsource/factory.py
+++ b/core/ratarmountcore/mountsource/factory.py
@@ -2,6 +2,7 @@
 # Disable pylint errors. See https://github.com/fsspec/filesystem_spec/issues/1678
 
 import contextlib
+import errno
 import http
 import logging
 import os
@@ -70,6 +71,8 @@ except ImportError:
 
 logger = logging.getLogger(__name__)
 
+_SYSTEM_ERRORS = {errno.EIO, errno.EMFILE, errno.ENFILE, errno.ENOMEM}
+
 
 def _open_git_mount_source(url: str) -> Union[MountSource, IO[bytes], str]:
     splitURI = url.split('://', 1)
@@ -376,6 +379,11 @@ def open_mount_source(fileOrPath: Union[str, IO[bytes], os.PathLike], **options)
                     logger.info("Opened archive with %s backend.", name)
                     return result
             except Exception as exception:
+                # System errors say nothing about the format. Continuing with other backends might show the archive
+                # in a different way, e.g., as a single incomplete file.
+                if isinstance(exception, OSError) and exception.errno in _SYSTEM_ERRORS:
+                    raise
+
                 logger.info(
                     "Trying to open with %s raised an exception: %s",
                     name,
-- 
2.43.0


From 87165382d3858083912ea586b5e22caffa771790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 39/56] fix: Read errors must not be seen as the end of the
 file by libarchive

Exceptions in the callbacks were ignored by ctypes so that archives were
shown with missing files and libarchive objects, which are broken after
an error, were reused for subsequent reads.
---
 .../mountsource/formats/libarchive.py         | 77 +++++++++++++------
 1 file changed, 55 insertions(+), 22 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index 82355b6..5ad2b1e 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -3,6 +3,7 @@
 
 import contextlib
 import ctypes
+import errno
 import io
 import logging
 import os
@@ -209,6 +210,9 @@ class IterableArchive:
         self._seekCallback = None
         self._entry: Optional[ArchiveEntry] = None
         self._eof = False
+        # Exceptions cannot be propagated through libarchive, so errors in the callbacks are stored here.
+        self._callbackError: Optional[Exception] = None
+        self.broken = False
 
         self._archive = laffi.read_new()
         try:
@@ -233,6 +237,19 @@ class IterableArchive:
         allNames = [laffi.filter_name(self._archive, i) for i in range(laffi.filter_count(self._archive))]
         return [name for name in allNames if name != b'none']
 
+    @contextlib.contextmanager
+    def forward_errors(self):
+        try:
+            yield
+        except Exception as exception:
+            self.broken = True
+            if self._callbackError is not None and exception is not self._callbackError:
+                raise self._callbackError from exception
+            raise
+        if self._callbackError is not None:
+            self.broken = True
+            raise self._callbackError
+
     def _try_to_open(self, allowArchives: bool):
         laffi.get_read_filter_function('all')(self._archive)
 
@@ -280,17 +297,22 @@ class IterableArchive:
 
         def read_from_file_object(_archive, _context, pointerToBufferPointer):
             nonlocal position
-            with self._fileLock:
-                if position is not None:
-                    self._file.seek(position)
-                try:
-                    size = self._file.readinto(self._buffer)
-                except (NotImplementedError, AttributeError):
-                    result = self._file.read(self.bufferSize)
-                    size = len(result)
-                    self._buffer = ctypes.c_char_p(result)
-                if position is not None:
-                    position += size
+            try:
+                with self._fileLock:
+                    if position is not None:
+                        self._file.seek(position)
+                    try:
+                        size = self._file.readinto(self._buffer)
+                    except (NotImplementedError, AttributeError):
+                        result = self._file.read(self.bufferSize)
+                        size = len(result)
+                        self._buffer = ctypes.c_char_p(result)
+                    if position is not None:
+                        position += size
+            except Exception as exception:
+                # Else, ctypes would ignore the exception and libarchive would see the end of the file.
+                self._callbackError = exception
+                return laffi.ARCHIVE_FATAL
             pointerToBufferPointer = ctypes.cast(pointerToBufferPointer, ctypes.POINTER(ctypes.c_void_p))
             pointerToBufferPointer[0] = ctypes.cast(self._buffer, ctypes.c_void_p)
             return size
@@ -299,12 +321,18 @@ class IterableArchive:
 
             def seek_file_object(_archive, _context, offset, whence):
                 nonlocal position
-                with self._fileLock:
-                    if position is not None:
-                        self._file.seek(position)
-                    self._file.seek(offset, whence)
-                    position = self._file.tell()
-                    return position
+                try:
+                    with self._fileLock:
+                        if position is not None:
+                            self._file.seek(position)
+                        self._file.seek(offset, whence)
+                        position = self._file.tell()
+                        return position
+                except Exception as exception:
+                    # Libarchive handles invalid seeks, e.g., before the start of the file, by itself.
+                    if not isinstance(exception, ValueError) and getattr(exception, 'errno', None) != errno.EINVAL:
+                        self._callbackError = exception
+                    return laffi.ARCHIVE_FATAL
 
             position = 0
             self._seekCallback = laffi.SEEK_CALLBACK(seek_file_object)
@@ -313,7 +341,8 @@ class IterableArchive:
 
         # Needs to be assigned to self, or else, ctypes lifetime issues result in a segfault!
         self._readCallback = laffi.READ_CALLBACK(read_from_file_object)
-        laffi.read_open(self._archive, None, laffi.NO_OPEN_CB, self._readCallback, laffi.NO_CLOSE_CB)
+        with self.forward_errors():
+            laffi.read_open(self._archive, None, laffi.NO_OPEN_CB, self._readCallback, laffi.NO_CLOSE_CB)
 
     def __enter__(self):
         return self
@@ -328,7 +357,8 @@ class IterableArchive:
         if self._eof:
             return None
 
-        self._entry = ArchiveEntry(self._archive, entry_index=self._entryIndex, encoding=self.encoding)
+        with self.forward_errors():
+            self._entry = ArchiveEntry(self._archive, entry_index=self._entryIndex, encoding=self.encoding)
         if self._entryIndex == 0 and logger.isEnabledFor(logging.INFO):
             format_name = laffi.format_name(self._archive)
             if isinstance(format_name, bytes):
@@ -349,7 +379,8 @@ class IterableArchive:
         return self._entryIndex
 
     def read_data(self, buffer, size):
-        return laffi.read_data(self._archive, buffer, size)
+        with self.forward_errors():
+            return laffi.read_data(self._archive, buffer, size)
 
 
 class IterableArchiveCache:
@@ -446,7 +477,8 @@ class LibarchiveFile(io.RawIOBase):
 
     @overrides(io.RawIOBase)
     def close(self) -> None:
-        if self._archiveCache and self._archive:
+        # Archives cannot be used anymore after, e.g., I/O errors.
+        if self._archiveCache and self._archive and not self._archive.broken:
             self._archiveCache.insert(self._archive)
         if self._bufferIO is not None:
             self._bufferIO.close()
@@ -596,7 +628,8 @@ class LibarchiveMountSource(SQLiteIndexMountSource):
                     entryPath = fname
 
                 gotAnyEntry = True
-                fileInfos.append(entry.convert_to_row(entry.entry_index, self.transform, path=entryPath))
+                with archive.forward_errors():
+                    fileInfos.append(entry.convert_to_row(entry.entry_index, self.transform, path=entryPath))
                 # Contains file info SQLite row tuples! 4 -> size, 6 -> mode
                 if not triedToOpen and not stat.S_ISDIR(fileInfos[-1][6]) and fileInfos[-1][4] > 0:
                     bufferSize = 1
-- 
2.43.0


From c21e4c11cfb49db2bd97e13e4d773bedb65981c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 40/56] fix: Errors while reading must neither move the
 position nor look like the end of the file

The data read from the preceding stencils was lost when reading from a stencil
failed and io.BufferedReader continued at the wrong position afterwards. When an
archive ended inside a file, the file simply appeared to be shorter than its size.
---
 core/ratarmountcore/StenciledFile.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/core/ratarmountcore/StenciledFile.py b/core/ratarmountcore/StenciledFile.py
index ab1b425..9dce7ea 100644
--- a/core/ratarmountcore/StenciledFile.py
+++ b/core/ratarmountcore/StenciledFile.py
@@ -1,5 +1,6 @@
 import bisect
 import contextlib
+import errno
 import io
 from collections.abc import Sequence
 from typing import IO, Callable, Optional
@@ -135,6 +136,8 @@ class RawStenciledFile(FixedRawIOBase):
         # Read as much as requested or as much as the current contiguous region / stencil still contains.
         readableSize = min(size, self.sizes[i] - (self.offset - self.cumsizes[i]))
         tmp = self.fileObjects[i].read(readableSize)
+        if readableSize > 0 and not tmp:
+            raise OSError(errno.EIO, "The file ended unexpectedly!")
         self.offset += len(tmp)
         return tmp
 
@@ -146,12 +149,18 @@ class RawStenciledFile(FixedRawIOBase):
             return b''
 
         result = b''
-        with self.fileObjectLock or contextlib.nullcontext():
-            while len(result) < size:
-                tmp = self._read1_unlocked(size - len(result))
-                if not tmp:
-                    break
-                result += tmp
+        oldOffset = self.offset
+        try:
+            with self.fileObjectLock or contextlib.nullcontext():
+                while len(result) < size:
+                    tmp = self._read1_unlocked(size - len(result))
+                    if not tmp:
+                        break
+                    result += tmp
+        except BaseException:
+            # The position must not change because the partial result is lost, e.g., for io.BufferedReader.
+            self.offset = oldOffset
+            raise
 
         return result
 
-- 
2.43.0


From bfaddab7f190e73a3b3e2b8d4966684e3cae1e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 41/56] fix: Members of ASAR and encrypted 7z archives must not
 share their checksums

Extended attributes are looked up by the header offset, which was 0 for all members.
---
 core/ratarmountcore/mountsource/formats/asar.py  | 12 ++++++++----
 core/ratarmountcore/mountsource/formats/py7zr.py |  8 +++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/asar.py b/core/ratarmountcore/mountsource/formats/asar.py
index 04fe9a2..932b5c3 100644
--- a/core/ratarmountcore/mountsource/formats/asar.py
+++ b/core/ratarmountcore/mountsource/formats/asar.py
@@ -1,4 +1,5 @@
 import contextlib
+import itertools
 import json
 import logging
 import os
@@ -94,7 +95,7 @@ class ASARMountSource(SQLiteIndexMountSource):
 
         self._finalize_index(self._create_index)
 
-    def _convert_to_row(self, fullPath, entry: dict[str, Any], dataOffset: int) -> tuple:
+    def _convert_to_row(self, fullPath, entry: dict[str, Any], dataOffset: int, entryIndex: int) -> tuple:
         path, name = SQLiteIndex.normpath(self.transform(fullPath)).rsplit("/", 1)
 
         isFile = 'offset' in entry and 'size' in entry
@@ -109,7 +110,7 @@ class ASARMountSource(SQLiteIndexMountSource):
         fileInfo : tuple = (
             path              ,  # 0  : path
             name              ,  # 1  : file name
-            0                 ,  # 2  : header offset
+            entryIndex        ,  # 2  : header offset (must be unique because xattrs are looked up by it)
             offset            ,  # 3  : data offset
             size              ,  # 4  : file size
             0                 ,  # 5  : modification time
@@ -135,12 +136,15 @@ class ASARMountSource(SQLiteIndexMountSource):
 
         # This code is complex to avoid recursion.
         toProcess = [("/", header)]
-        fileInfos = [self._convert_to_row("/", header, self._dataOffset)]
+        counter = itertools.count()
+        fileInfos = [self._convert_to_row("/", header, self._dataOffset, next(counter))]
         while toProcess:
             prefix, entry = toProcess.pop()
             children = [(prefix + "/" + path, nestedEntry) for path, nestedEntry in entry['files'].items()]
             # toProcess must only contain folder entries, which have a 'files' key mapping to a dictionary.
-            fileInfos += [self._convert_to_row(path, nestedEntry, self._dataOffset) for path, nestedEntry in children]
+            fileInfos += [
+                self._convert_to_row(path, nestedEntry, self._dataOffset, next(counter)) for path, nestedEntry in children
+            ]
             # Appending leads to depth-first traversal, while prepending leads to breadth-first traversal.
             # Depth-first should be slightly less memory intensive. Note that the dictionary should only store
             # a pointer to the shared mutable Python object, but the path strings will use up memory.
diff --git a/core/ratarmountcore/mountsource/formats/py7zr.py b/core/ratarmountcore/mountsource/formats/py7zr.py
index 24b1e30..f4b4075 100644
--- a/core/ratarmountcore/mountsource/formats/py7zr.py
+++ b/core/ratarmountcore/mountsource/formats/py7zr.py
@@ -109,10 +109,12 @@ class Py7zrMountSource(SQLiteIndexMountSource):
         }
         super().__init__(**(options | indexOptions))
         self._finalize_index(
-            lambda: self.index.set_file_infos([self._convert_to_row(info) for info in self.fileObject.list()])
+            lambda: self.index.set_file_infos(
+                [self._convert_to_row(info, i) for i, info in enumerate(self.fileObject.list())]
+            )
         )
 
-    def _convert_to_row(self, info) -> tuple:
+    def _convert_to_row(self, info, entryIndex: int) -> tuple:
         mode = 0o777 | (stat.S_IFDIR if info.is_directory else stat.S_IFREG)
         mtime = info.creationtime.timestamp()
         path, name = SQLiteIndex.normpath(self.transform(info.filename)).rsplit("/", 1)
@@ -121,7 +123,7 @@ class Py7zrMountSource(SQLiteIndexMountSource):
         fileInfo : tuple = (
             path              ,  # 0  : path
             name              ,  # 1  : file name
-            0                 ,  # 2  : header offset
+            entryIndex        ,  # 2  : header offset (must be unique because xattrs are looked up by it)
             0                 ,  # 3  : data offset
             info.uncompressed ,  # 4  : file size
             mtime             ,  # 5  : modification time
-- 
2.43.0


From 7c666bea404298ce608f14330e5da1ae298b313b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:58 +0000
Subject: [PATCH 42/56] fix: Errors while opening or reading archives must be
 reported and must not persist

---
 core/ratarmountcore/StenciledFile.py          |  8 +-
 core/ratarmountcore/compressions.py           |  3 +
 core/ratarmountcore/formats.py                | 23 ++++-
 core/ratarmountcore/mountsource/archives.py   |  3 +
 core/ratarmountcore/mountsource/factory.py    |  7 +-
 .../mountsource/formats/libarchive.py         | 83 ++++++++++++++-----
 .../mountsource/formats/py7zr.py              |  7 +-
 .../ratarmountcore/mountsource/formats/tar.py |  9 +-
 .../ratarmountcore/mountsource/formats/zip.py |  7 +-
 core/ratarmountcore/utils.py                  | 17 ++++
 10 files changed, 130 insertions(+), 37 deletions(-)

diff --git a/core/ratarmountcore/StenciledFile.py b/core/ratarmountcore/StenciledFile.py
index 9dce7ea..04bec7f 100644
--- a/core/ratarmountcore/StenciledFile.py
+++ b/core/ratarmountcore/StenciledFile.py
@@ -240,8 +240,10 @@ class RawJoinedFileFromFactory(io.RawIOBase):
         self.close()
 
     def _close_fileobj(self) -> None:
-        if self.fileObject and not self.fileObject[1].closed:
-            self.fileObject[1].close()
+        if self.fileObject:
+            fileObject = self.fileObject[1]
+            self.fileObject = None  # Else, it would still be returned if opening the next one fails.
+            fileObject.close()
 
     @overrides(io.RawIOBase)
     def close(self) -> None:
@@ -293,6 +295,8 @@ class RawJoinedFileFromFactory(io.RawIOBase):
             # Read as much as requested or as much as the current contiguous region / stencil still contains
             readableSize = min(size, self.sizes[i] - (self.offset - self.cumsizes[i]))
             tmp = fileObject.read(readableSize)
+            if not tmp and readableSize > 0:
+                raise OSError(errno.EIO, "The underlying file ended unexpectedly!")
             self.offset += len(tmp)
             result += tmp
 
diff --git a/core/ratarmountcore/compressions.py b/core/ratarmountcore/compressions.py
index 25972ee..709a344 100644
--- a/core/ratarmountcore/compressions.py
+++ b/core/ratarmountcore/compressions.py
@@ -21,6 +21,7 @@ from .utils import (
     is_latin_digit,
     is_latin_hex_alpha,
     is_on_slow_drive,
+    is_system_error,
 )
 
 logger = logging.getLogger(__name__)
@@ -480,6 +481,8 @@ def detect_compression(
                 exception,
                 exc_info=logger.isEnabledFor(logging.DEBUG),
             )
+            if is_system_error(exception):
+                raise
             fileobj.seek(oldOffset)
 
     return None
diff --git a/core/ratarmountcore/formats.py b/core/ratarmountcore/formats.py
index 96a579e..7611536 100644
--- a/core/ratarmountcore/formats.py
+++ b/core/ratarmountcore/formats.py
@@ -33,6 +33,8 @@ import tarfile
 import zipfile
 from typing import IO, Callable, Optional, Union
 
+from .utils import is_system_error
+
 with contextlib.suppress(ImportError):
     import rapidgzip
 
@@ -172,6 +174,20 @@ def find_asar_header(fileobj: IO[bytes]) -> tuple[int, int, int]:
     return ASAR_MAGIC_SIZE, sizeOfPickledHeader, dataOffset
 
 
+def is_zip(fileobj: IO[bytes]) -> bool:
+    if zipfile.is_zipfile(fileobj):
+        return True
+    # zipfile.is_zipfile returns False for all I/O errors. Provoke them again by reading what it has tried to read,
+    # i.e., the end of central directory record, which may only be followed by a comment smaller than 64 KiB.
+    oldOffset = fileobj.tell()
+    try:
+        fileobj.seek(max(0, fileobj.seek(0, io.SEEK_END) - 22 - 65536))
+        data = fileobj.read()
+    finally:
+        fileobj.seek(oldOffset)
+    return b'PK\5\6' in data and zipfile.is_zipfile(fileobj)
+
+
 def is_asar(fileobj: IO[bytes]) -> bool:
     offset = fileobj.tell()
     try:
@@ -179,8 +195,9 @@ def is_asar(fileobj: IO[bytes]) -> bool:
         # The unnecessary pickling already should introduce enough redundancy for checks and detection.
         find_asar_header(fileobj)
         return True
-    except Exception:
-        pass
+    except Exception as exception:
+        if is_system_error(exception):
+            raise
     finally:
         fileobj.seek(offset)
     return False
@@ -425,7 +442,7 @@ ARCHIVE_FORMATS: dict[FileFormatID, FileFormatInfo] = {
     # is_zipfile might yields some false positives, we want it to err on the positive side.
     # See: https://bugs.python.org/issue42096
     # https://en.wikipedia.org/wiki/Comic_book_archive
-    FID.ZIP: FileFormatInfo(['zip', 'cbz'], None, zipfile.is_zipfile),
+    FID.ZIP: FileFormatInfo(['zip', 'cbz'], None, is_zip),
     # SQLAR can be encrypted, for which it will not have any magic bytes! Instead, the first 16 B are the salt.
     FID.SQLAR: (
         FileFormatInfo(['sqlar'], b'SQLite format 3\x00', None)
diff --git a/core/ratarmountcore/mountsource/archives.py b/core/ratarmountcore/mountsource/archives.py
index 0f249c7..ab61b79 100644
--- a/core/ratarmountcore/mountsource/archives.py
+++ b/core/ratarmountcore/mountsource/archives.py
@@ -3,6 +3,7 @@ import logging
 from typing import IO, Any, Callable, Optional, Union
 
 from ratarmountcore.formats import FileFormatID
+from ratarmountcore.utils import is_system_error
 
 from . import MountSource
 from .formats.ar import ARMountSource
@@ -55,6 +56,8 @@ def _open_libarchive_mount_source(fileOrPath: Union[str, IO[bytes]], **options)
             exception,
             exc_info=logger.isEnabledFor(logging.DEBUG),
         )
+        if is_system_error(exception):
+            raise
     finally:
         try:
             if hasattr(fileOrPath, 'seek'):
diff --git a/core/ratarmountcore/mountsource/factory.py b/core/ratarmountcore/mountsource/factory.py
index 3739b72..ee928e8 100644
--- a/core/ratarmountcore/mountsource/factory.py
+++ b/core/ratarmountcore/mountsource/factory.py
@@ -2,7 +2,6 @@
 # Disable pylint errors. See https://github.com/fsspec/filesystem_spec/issues/1678
 
 import contextlib
-import errno
 import http
 import logging
 import os
@@ -18,7 +17,7 @@ from ratarmountcore.compressions import COMPRESSION_BACKENDS, check_for_split_fi
 from ratarmountcore.formats import FILE_FORMATS, FileFormatID, might_be_format
 from ratarmountcore.SQLiteIndex import SQLiteIndex
 from ratarmountcore.StenciledFile import JoinedFileFromFactory
-from ratarmountcore.utils import CompressionError, RatarmountError
+from ratarmountcore.utils import CompressionError, RatarmountError, is_system_error
 
 from . import MountSource
 from .archives import ARCHIVE_BACKENDS
@@ -71,8 +70,6 @@ except ImportError:
 
 logger = logging.getLogger(__name__)
 
-_SYSTEM_ERRORS = {errno.EIO, errno.EMFILE, errno.ENFILE, errno.ENOMEM}
-
 
 def _open_git_mount_source(url: str) -> Union[MountSource, IO[bytes], str]:
     splitURI = url.split('://', 1)
@@ -381,7 +378,7 @@ def open_mount_source(fileOrPath: Union[str, IO[bytes], os.PathLike], **options)
             except Exception as exception:
                 # System errors say nothing about the format. Continuing with other backends might show the archive
                 # in a different way, e.g., as a single incomplete file.
-                if isinstance(exception, OSError) and exception.errno in _SYSTEM_ERRORS:
+                if is_system_error(exception):
                     raise
 
                 logger.info(
diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index 5ad2b1e..b472305 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -19,7 +19,7 @@ from ratarmountcore.formats import FILE_FORMATS
 from ratarmountcore.mountsource import FileInfo, MountSource
 from ratarmountcore.mountsource.SQLiteIndexMountSource import SQLiteIndexMountSource
 from ratarmountcore.SQLiteIndex import SQLiteIndex
-from ratarmountcore.utils import InvalidIndexError, overrides
+from ratarmountcore.utils import InvalidIndexError, is_system_error, overrides
 
 try:
     # Use the FFI directly because the higher-level interface does not work sufficiently for our use case.
@@ -219,6 +219,7 @@ class IterableArchive:
             self._set_passwords(passwords or [])
             self._try_to_open(allowArchives=True)
         except ArchiveError as exception:
+            self.broken = False
             logger.info("Was not able to open %s as given archive. Try to undo compressions next.", self._file)
             logger.info("Exception: %s", exception, exc_info=logger.isEnabledFor(logging.DEBUG))
             try:
@@ -245,6 +246,10 @@ class IterableArchive:
             self.broken = True
             if self._callbackError is not None and exception is not self._callbackError:
                 raise self._callbackError from exception
+            if isinstance(exception, ArchiveError) and exception.errno:
+                systemError = OSError(exception.errno, exception.msg)
+                if is_system_error(systemError):
+                    raise systemError from exception
             raise
         if self._callbackError is not None:
             self.broken = True
@@ -261,11 +266,14 @@ class IterableArchive:
                 logger.debug("Failed to enable format %s because of: %s", formatToEnable, exception, exc_info=True)
 
         if isinstance(self._file, str):
-            laffi.read_open_filename_w(self._archive, self._file, os.stat(self._file).st_blksize)
+            with self.forward_errors():
+                laffi.read_open_filename_w(self._archive, self._file, os.stat(self._file).st_blksize)
         elif isinstance(self._file, Path):
-            laffi.read_open_filename_w(self._archive, str(self._file), self._file.stat().st_blksize)
+            with self.forward_errors():
+                laffi.read_open_filename_w(self._archive, str(self._file), self._file.stat().st_blksize)
         elif isinstance(self._file, int):
-            laffi.read_open_fd(self._archive, self._file, os.fstat(self._file).st_blksize)
+            with self.forward_errors():
+                laffi.read_open_fd(self._archive, self._file, os.fstat(self._file).st_blksize)
         elif hasattr(self._file, 'readinto'):
             self._open_with_file_object()
         else:
@@ -428,11 +436,12 @@ class LibarchiveFile(io.RawIOBase):
         self._buffer = None
         self._bufferOffset = 0  # Offset in self.entry from which the buffer was read
         self._bufferIO = None
+        self._failedOffset: Optional[int] = None  # Offset to restore before the next access after an error.
 
         self._open()
 
     def _open(self):
-        self.close()
+        self._release()
 
         self._archive = self._archiveCache.take(self.entry_index)
         if self._archive is None:
@@ -449,8 +458,25 @@ class LibarchiveFile(io.RawIOBase):
                 break
 
         if self._entry is None and self._bufferIO is None:
+            self._archive.broken = True
             raise ValueError(f"Failed to find archive entry {self.entry_index}.")
 
+    @contextlib.contextmanager
+    def _restore_after_errors(self):
+        if self.closed:
+            raise ValueError("I/O operation on closed file.")
+        if self._failedOffset is not None:
+            # Archives cannot be used anymore after, e.g., I/O errors.
+            self._open()
+            self._skip(self._failedOffset)
+            self._failedOffset = None
+        offset = self.tell()
+        try:
+            yield
+        except Exception:
+            self._failedOffset = offset
+            raise
+
     def _refill_buffer(self):
         bufferedSize = len(self._buffer) if self._buffer else 0
         if self._bufferOffset + bufferedSize >= self.fileSize:
@@ -459,8 +485,8 @@ class LibarchiveFile(io.RawIOBase):
                 self._bufferIO = io.BytesIO()
             return
 
-        self._bufferOffset += bufferedSize
-        sizeToRead = min(self._bufferSizeMax, max(0, self.fileSize - self._bufferOffset))
+        bufferOffset = self._bufferOffset + bufferedSize
+        sizeToRead = min(self._bufferSizeMax, max(0, self.fileSize - bufferOffset))
 
         # Reallocate buffer if we need a different size. This is necessary because I don't see an API to
         # specify a size to io,BytesIO to make it work on a subset of the buffer without copying.
@@ -472,22 +498,28 @@ class LibarchiveFile(io.RawIOBase):
 
         readSize = self._archive.read_data(self._buffer, sizeToRead)
         if readSize != sizeToRead:
+            self._archive.broken = True
             raise RuntimeError(f"Read {readSize} bytes but expected {self.fileSize} for entry {self.entry_index}!")
         self._bufferIO = io.BytesIO(self._buffer)
+        self._bufferOffset = bufferOffset
 
-    @overrides(io.RawIOBase)
-    def close(self) -> None:
+    def _release(self) -> None:
         # Archives cannot be used anymore after, e.g., I/O errors.
         if self._archiveCache and self._archive and not self._archive.broken:
             self._archiveCache.insert(self._archive)
         if self._bufferIO is not None:
             self._bufferIO.close()
             self._bufferIO = None
-            self._bufferOffset = 0
+        self._bufferOffset = 0
         self._buffer = None
         self._entry = None
         self._archive = None
 
+    @overrides(io.RawIOBase)
+    def close(self) -> None:
+        self._release()
+        super().close()
+
     @overrides(io.RawIOBase)
     def fileno(self) -> int:
         # This is a virtual Python level file object and therefore does not have a valid OS file descriptor!
@@ -499,13 +531,13 @@ class LibarchiveFile(io.RawIOBase):
 
     @overrides(io.RawIOBase)
     def readable(self) -> bool:
-        return self._bufferIO is not None and self._bufferIO.readable()
+        return not self.closed
 
     @overrides(io.RawIOBase)
     def writable(self) -> bool:
         return False
 
-    def read1(self, size: int = -1) -> bytes:
+    def _read1(self, size: int = -1) -> bytes:
         if not self._bufferIO:
             raise RuntimeError("Closed file cannot be read from!")
         result = self._bufferIO.read(size)
@@ -514,27 +546,36 @@ class LibarchiveFile(io.RawIOBase):
         self._refill_buffer()
         return self._bufferIO.read(size)
 
+    def read1(self, size: int = -1) -> bytes:
+        with self._restore_after_errors():
+            return self._read1(size)
+
     @overrides(io.RawIOBase)
     def read(self, size: int = -1) -> bytes:
-        result = bytearray()
-        while size < 0 or len(result) < size:
-            read_data = self.read1(size if size < 0 else size - len(result))
-            if not read_data:
-                break
-            result.extend(read_data)
-        return bytes(result)
+        with self._restore_after_errors():
+            result = bytearray()
+            while size < 0 or len(result) < size:
+                read_data = self._read1(size if size < 0 else size - len(result))
+                if not read_data:
+                    break
+                result.extend(read_data)
+            return bytes(result)
 
     def _skip(self, size: int) -> None:
         if not self._bufferIO:
             raise RuntimeError("Closed file cannot be read from!")
         while size > 0:
-            data = self.read1(size)
+            data = self._read1(size)
             if not data:
                 break
             size -= len(data)
 
     @overrides(io.RawIOBase)
     def seek(self, offset: int, whence: int = io.SEEK_SET) -> int:
+        with self._restore_after_errors():
+            return self._seek(offset, whence)
+
+    def _seek(self, offset: int, whence: int) -> int:
         if not self._bufferIO:
             raise RuntimeError("Closed file cannot be seeked!")
 
@@ -560,6 +601,8 @@ class LibarchiveFile(io.RawIOBase):
 
     @overrides(io.RawIOBase)
     def tell(self) -> int:
+        if self._failedOffset is not None:
+            return self._failedOffset
         result = self._bufferOffset
         if self._bufferIO:
             result += self._bufferIO.tell()
diff --git a/core/ratarmountcore/mountsource/formats/py7zr.py b/core/ratarmountcore/mountsource/formats/py7zr.py
index f4b4075..da081e3 100644
--- a/core/ratarmountcore/mountsource/formats/py7zr.py
+++ b/core/ratarmountcore/mountsource/formats/py7zr.py
@@ -9,7 +9,7 @@ from ratarmountcore.formats import FileFormatID, replace_format_check
 from ratarmountcore.mountsource import FileInfo, MountSource
 from ratarmountcore.mountsource.SQLiteIndexMountSource import SQLiteIndexMountSource
 from ratarmountcore.SQLiteIndex import SQLiteIndex
-from ratarmountcore.utils import overrides
+from ratarmountcore.utils import is_system_error, overrides
 
 try:
     import py7zr
@@ -165,8 +165,9 @@ class Py7zrMountSource(SQLiteIndexMountSource):
             try:
                 open_in_memory(fileobj, files[0].filename)
                 return fileobj
-            except Exception:
-                pass
+            except Exception as exception:
+                if is_system_error(exception):
+                    raise
 
         raise RuntimeError("Could not find a matching password!")
 
diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 73b669e..bd4d873 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -36,6 +36,7 @@ from ratarmountcore.utils import (
     create_folder_from_file_permissions,
     decode_unpadded_base64,
     determine_recursion_depth,
+    is_system_error,
     overrides,
 )
 
@@ -120,6 +121,8 @@ class _TarFileMetadataReader:
             return extract_prefix(tarInfo.offset)
 
         except Exception as exception:
+            if is_system_error(exception):
+                raise
             logger.warning(
                 "Encountered exception when trying to get TAR prefix: %s",
                 exception,
@@ -776,6 +779,8 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
                     break
 
         except Exception as exception:
+            if is_system_error(exception):
+                raise
             logger.debug("TAR was not recognized as GNU incremental TAR because of exception: %s", exception, exc_info=True)
         finally:
             fileObject.seek(oldPos)
@@ -1041,7 +1046,9 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
         with self.fileObjectLock:
             self.tarFileObject.seek(0, io.SEEK_END)
             tarFileSize = self.tarFileObject.tell()
-        tarSubFile = self._open_stencil([(self.tarFileObject, tarFileInfo.offsetheader, tarFileSize)], buffering)
+        tarSubFile = self._open_stencil(
+            [(self.tarFileObject, tarFileInfo.offsetheader, max(0, tarFileSize - tarFileInfo.offsetheader))], buffering
+        )
 
         with tarfile.open(fileobj=cast(IO[bytes], tarSubFile), mode='r:', encoding=self.index.encoding) as tarFile:
             tarInfo = next(iter(tarFile))
diff --git a/core/ratarmountcore/mountsource/formats/zip.py b/core/ratarmountcore/mountsource/formats/zip.py
index cec2f2e..321ee8c 100644
--- a/core/ratarmountcore/mountsource/formats/zip.py
+++ b/core/ratarmountcore/mountsource/formats/zip.py
@@ -11,7 +11,7 @@ from typing import IO, Optional, Union
 from ratarmountcore.mountsource import FileInfo, MountSource
 from ratarmountcore.mountsource.SQLiteIndexMountSource import SQLiteIndexMountSource
 from ratarmountcore.SQLiteIndex import SQLiteIndex
-from ratarmountcore.utils import overrides
+from ratarmountcore.utils import is_system_error, overrides
 
 try:
     # Importing this patches the zipfile module as a "side" effect!
@@ -149,8 +149,9 @@ class ZipMountSource(SQLiteIndexMountSource):
                 with fileobj.open(files[0]) as file:
                     file.read(1)
                 return password_or_none
-            except Exception:
-                pass
+            except Exception as exception:
+                if is_system_error(exception):
+                    raise
 
         raise RuntimeError("Could not find a matching password!")
 
diff --git a/core/ratarmountcore/utils.py b/core/ratarmountcore/utils.py
index ca00933..2827eff 100644
--- a/core/ratarmountcore/utils.py
+++ b/core/ratarmountcore/utils.py
@@ -1,6 +1,7 @@
 import base64
 import collections
 import contextlib
+import errno
 import importlib
 import io
 import logging
@@ -39,6 +40,22 @@ class CompressionError(RatarmountError):
     """Exception for trying to open files with unsupported compression or unavailable decompression module."""
 
 
+def is_system_error(exception: BaseException) -> bool:
+    """
+    Returns true for errors, such as I/O errors, that say nothing about the contents or format of the accessed file.
+    """
+    return isinstance(exception, OSError) and exception.errno in (
+        errno.EIO,
+        errno.EMFILE,
+        errno.ENFILE,
+        errno.ENOMEM,
+        errno.EACCES,
+        errno.EPERM,
+        errno.ESTALE,
+        errno.ETIMEDOUT,
+    )
+
+
 def overrides(parentClass):
     """Simple decorator that checks that a method with the same name exists in the parent class"""
     # I tried typing.override (Python 3.12+), but support for it does not seem to be ideal (yet)
-- 
2.43.0


From ecbcb0fa421c1cab68cc61aa01d98b7641ef1f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 43/56] fix: Mounting to nested, absolute, or occupied
 subfolders must work or change nothing

---
 .../mountsource/compositing/subvolumes.py     | 99 ++++++++++++-------
 ratarmount/FuseMount.py                       | 47 ++++++---
 2 files changed, 96 insertions(+), 50 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/subvolumes.py b/core/ratarmountcore/mountsource/compositing/subvolumes.py
index 7465677..fa36780 100644
--- a/core/ratarmountcore/mountsource/compositing/subvolumes.py
+++ b/core/ratarmountcore/mountsource/compositing/subvolumes.py
@@ -1,5 +1,6 @@
 import builtins
 import posixpath
+import threading
 from collections.abc import Iterable
 from typing import IO, Any, Optional, Union
 
@@ -15,6 +16,8 @@ class SubvolumesMountSource(MountSource):
         # Recursive dictionary representing folders. Keys are folder names, i.e., may not contain slashes.
         self.mountSources: dict[str, Any] = {}
         self.rootFileInfo = create_root_file_info(userdata=[None])
+        # Protects self.mountSources because mount and unmount may be called while other threads are using this.
+        self._lock = threading.RLock()
 
         for path, target in mountSources.items():
             self.mount(path, target)
@@ -37,11 +40,13 @@ class SubvolumesMountSource(MountSource):
     def is_mountable(self, path: str) -> bool:
         # Ensuring a leading slash before calling normpath has the effect of eating all leading '/..'.
         parent, name = ('/' + posixpath.normpath('/' + path).strip('/')).rsplit('/', maxsplit=1)
-        try:
-            folder = self._get_by_path(parent, create=True)
-        except RatarmountError:
-            return False
-        return bool(name) and folder is not None and isinstance(folder, dict) and (name not in folder)
+        with self._lock:
+            try:
+                folder = self._get_by_path(parent)
+            except RatarmountError:
+                return False
+            # If the parent folder does not exist yet, then it can be created.
+            return bool(name) and (folder is None or (isinstance(folder, dict) and name not in folder))
 
     def mount(self, path: str, target: MountSource) -> bool:
         """Adds a mount source at the specified path. Must not overlap with existing mounts. Return true on success."""
@@ -51,14 +56,18 @@ class SubvolumesMountSource(MountSource):
         if not name:
             raise RatarmountError("Mount points may not be empty!")
 
-        try:
-            folder = self._get_by_path(parent, create=True)
-        except RatarmountError:
-            return False
+        with self._lock:
+            # Check first because failing must not leave behind newly created parent folders.
+            try:
+                folder = self._get_by_path(parent)
+            except RatarmountError:
+                return False
+            if folder is not None and (not isinstance(folder, dict) or name in folder):
+                raise RatarmountError("Mount point already exists!")
 
-        if folder is None or not isinstance(folder, dict) or name in folder:
-            raise RatarmountError("Mount point already exists!")
-        folder[name] = target
+            folder = self._get_by_path(parent, create=True)
+            assert isinstance(folder, dict)
+            folder[name] = target
         return True
 
     def unmount(self, path: str) -> Optional[MountSource]:
@@ -70,6 +79,10 @@ class SubvolumesMountSource(MountSource):
         # Ensuring a leading / before calling normpath has the effect of eating all leading '/..'.
         path = posixpath.normpath('/' + path).strip('/')
 
+        with self._lock:
+            return self._unmount(path)
+
+    def _unmount(self, path: str) -> Optional[MountSource]:
         parents = [self.mountSources]
         names: list[str] = []
         for part in path.strip('/').split('/'):
@@ -107,17 +120,19 @@ class SubvolumesMountSource(MountSource):
         If the path points to a parent mount folder, then will return (path, "", None)
         """
 
-        folder = self.mountSources
         parts = path.strip('/').split('/')
-        for i, part in enumerate(parts):
-            if not part:
-                continue
-            if part not in folder:
-                return None
-            folder = folder[part]
-            if isinstance(folder, MountSource):
-                return ('/'.join(parts[: i + 1]), '/' + '/'.join(parts[i + 1 :]), folder)
-        return (path, "", folder)
+        with self._lock:
+            folder = self.mountSources
+            for i, part in enumerate(parts):
+                if not part:
+                    continue
+                if part not in folder:
+                    return None
+                folder = folder[part]
+                if isinstance(folder, MountSource):
+                    return ('/'.join(parts[: i + 1]), '/' + '/'.join(parts[i + 1 :]), folder)
+            # Return a copy because it might be iterated over while mounts are added or removed.
+            return (path, "", folder.copy())
 
     @overrides(MountSource)
     def is_immutable(self) -> bool:
@@ -135,7 +150,9 @@ class SubvolumesMountSource(MountSource):
 
         fileInfo = mounted.lookup(subpath, fileVersion=fileVersion)
         if isinstance(fileInfo, FileInfo):
-            fileInfo.userdata.append(subvolume)
+            # Also remember the mount source itself because it may have been unmounted or replaced by the time
+            # the file info is used.
+            fileInfo.userdata.append((subvolume, mounted))
             return fileInfo
         return None
 
@@ -176,7 +193,7 @@ class SubvolumesMountSource(MountSource):
         if subvolume is None:
             raise ValueError(f"Found subvolume is None for fileInfo: {fileInfo}")
         try:
-            return self.mountSources[subvolume].open(fileInfo, buffering=buffering)
+            return subvolume[1].open(fileInfo, buffering=buffering)
         finally:
             fileInfo.userdata.append(subvolume)
 
@@ -186,7 +203,7 @@ class SubvolumesMountSource(MountSource):
         if subvolume is None:
             raise ValueError(f"Found subvolume is None for fileInfo: {fileInfo}")
         try:
-            return self.mountSources[subvolume].read(fileInfo, size, offset)
+            return subvolume[1].read(fileInfo, size, offset)
         finally:
             fileInfo.userdata.append(subvolume)
 
@@ -194,7 +211,7 @@ class SubvolumesMountSource(MountSource):
     def list_xattr(self, fileInfo: FileInfo) -> builtins.list[str]:
         subvolume = fileInfo.userdata.pop()
         try:
-            return [] if subvolume is None else self.mountSources[subvolume].list_xattr(fileInfo)
+            return [] if subvolume is None else subvolume[1].list_xattr(fileInfo)
         finally:
             fileInfo.userdata.append(subvolume)
 
@@ -202,7 +219,7 @@ class SubvolumesMountSource(MountSource):
     def get_xattr(self, fileInfo: FileInfo, key: str) -> Optional[bytes]:
         subvolume = fileInfo.userdata.pop()
         try:
-            return None if subvolume is None else self.mountSources[subvolume].get_xattr(fileInfo, key)
+            return None if subvolume is None else subvolume[1].get_xattr(fileInfo, key)
         finally:
             fileInfo.userdata.append(subvolume)
 
@@ -211,19 +228,33 @@ class SubvolumesMountSource(MountSource):
         sourceFileInfo = fileInfo.clone()
         subvolume = sourceFileInfo.userdata.pop()
 
-        if subvolume is None or subvolume not in self.mountSources:
+        if subvolume is None:
             return '/', self, fileInfo
-        mountSource = self.mountSources[subvolume]
+        mountPoint, mountSource = subvolume
 
         subpath, subMountSource, subFileInfo = mountSource.get_mount_source(sourceFileInfo)
-        return posixpath.normpath(f"/{subvolume}/{subpath}"), subMountSource, subFileInfo
+        return posixpath.normpath(f"/{mountPoint}/{subpath}"), subMountSource, subFileInfo
+
+    def _get_mount_sources(self) -> builtins.list[MountSource]:
+        """Returns all mounted mount sources, including those mounted in subfolders."""
+        result = []
+        with self._lock:
+            folders = [self.mountSources]
+            while folders:
+                for target in folders.pop().values():
+                    if isinstance(target, dict):
+                        folders.append(target)
+                    else:
+                        result.append(target)
+        return result
 
     @overrides(MountSource)
     def __exit__(self, exception_type, exception_value, exception_traceback):
-        for mountSource in self.mountSources.values():
+        for mountSource in self._get_mount_sources():
             mountSource.__exit__(exception_type, exception_value, exception_traceback)
 
     def join_threads(self):
-        for mountSource in self.mountSources:
-            if hasattr(mountSource, 'join_threads'):
-                mountSource.join_threads()
+        for mountSource in self._get_mount_sources():
+            join_threads = getattr(mountSource, 'join_threads', None)
+            if join_threads is not None:
+                join_threads()
diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index fa5b1c2..b70f00e 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -223,6 +223,11 @@ class FuseMount(fuse.Operations):
 
             openLog = _get_log
 
+        # The control layer must never become a subvolume itself because it already contains its prefix.
+        if len(mountSources) > 1 and options.get('disableUnionMount', False):
+            self._subvolumes = cast(SubvolumesMountSource, self._create_multi_mount(mountSources, options))
+            mountSources = [('/', self._subvolumes)]
+
         if self._enableControlInterface:
             controlFiles = [
                 SingleFileMountSource('command', (lambda _: cast(IO[bytes], CommandFile(self._parse_command))))
@@ -241,10 +246,8 @@ class FuseMount(fuse.Operations):
             raise ValueError("Mount point is empty! Either specify some input files or enable the control interface!")
 
         self.mountSource: MountSource = (
-            mountSources[0][1] if len(mountSources) == 1 else self._create_multi_mount(mountSources, options)
+            mountSources[0][1] if len(mountSources) == 1 else UnionMountSource([x[1] for x in mountSources], **options)
         )
-        if isinstance(self.mountSource, SubvolumesMountSource):
-            self._subvolumes = self.mountSource
 
         if determine_recursion_depth(**options) > 0:
             self.mountSource = AutoMountLayer(self.mountSource, **options)
@@ -482,6 +485,11 @@ class FuseMount(fuse.Operations):
             raise ValueError("Mount point must be explicitly specified!")
         if not args.mount_source:
             raise ValueError("At least one input must be specified!")
+        # Absolute paths into our own mount point specify the subvolume relative to it.
+        if os.path.isabs(args.mount_point):
+            subpath = self._path_provided_by_us(args.mount_point)
+            if subpath is not None:
+                args.mount_point = subpath
         # Optimization to avoid costly MountSource creations and resource issues when it cannot be mounted anyway.
         if not self._subvolumes.is_mountable(args.mount_point):
             raise ValueError("Invalid relative mount point! It must not already exist.")
@@ -513,19 +521,26 @@ class FuseMount(fuse.Operations):
         self._filter_index_locations_in_fuse_mount(options)
 
         # We have checked at the start of this method that none of args.mount_source points into our FUSE mount!
-        mountSources: list[tuple[str, MountSource]] = [
-            (os.path.basename(path), open_mount_source(path, **options)) for path in args.mount_source
-        ]
-        mountSource: MountSource = (
-            mountSources[0][1] if len(mountSources) == 1 else self._create_multi_mount(mountSources, options)
-        )
-        if determine_recursion_depth(**options) > 0:
-            mountSource = AutoMountLayer(mountSource, **options)
-        # One outermost FileVersionLayer is sufficient.
-        if options.get('enableFileVersions', True) and not isinstance(self.mountSource, FileVersionLayer):
-            mountSource = FileVersionLayer(mountSource)
-
-        self._subvolumes.mount(args.mount_point, mountSource)
+        mountSources: list[tuple[str, MountSource]] = []
+        try:
+            for path in args.mount_source:
+                mountSources.append((os.path.basename(path), open_mount_source(path, **options)))
+            mountSource: MountSource = (
+                mountSources[0][1] if len(mountSources) == 1 else self._create_multi_mount(mountSources, options)
+            )
+            if determine_recursion_depth(**options) > 0:
+                mountSource = AutoMountLayer(mountSource, **options)
+            # One outermost FileVersionLayer is sufficient.
+            if options.get('enableFileVersions', True) and not isinstance(self.mountSource, FileVersionLayer):
+                mountSource = FileVersionLayer(mountSource)
+
+            # Another thread might have mounted something to the same path in the meantime.
+            if not self._subvolumes.mount(args.mount_point, mountSource):
+                raise ValueError("Invalid relative mount point! It must not be inside another mount point.")
+        except BaseException:
+            for _, mountSource in mountSources:
+                mountSource.__exit__(None, None, None)
+            raise
 
     def unmount(self, path: str) -> bool:
         if not self._subvolumes:
-- 
2.43.0


From e5022fd973b89bf5de0f28306b4dc530137aedcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:06 +0000
Subject: [PATCH 44/56] fix: In-memory indexes of dynamic mounts must not
 become a file shared by all of them

---
 ratarmount/FuseMount.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index b70f00e..4c12ccf 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -436,8 +436,9 @@ class FuseMount(fuse.Operations):
             if options['indexFilePath'].count('://') == 1:
                 fileURLPrefix = 'file://'
                 indexFilePath = indexFilePath.removeprefix(fileURLPrefix)
-            if '://' not in indexFilePath:
-                indexFilePath = os.path.realpath(options['indexFilePath'])
+            # The special value for in-memory indexes is not a path.
+            if '://' not in indexFilePath and indexFilePath != ':memory:':
+                indexFilePath = os.path.realpath(indexFilePath)
 
             if self._path_provided_by_us(indexFilePath) is not None:
                 del options['indexFilePath']
-- 
2.43.0


From 951dae266199288d22e99821457b0821050d1592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:00 +0000
Subject: [PATCH 45/56] fix: Opened files must stay readable after unmounting

---
 core/ratarmountcore/mountsource/formats/squashfs.py |  5 ++++-
 core/ratarmountcore/mountsource/formats/tar.py      | 11 ++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/squashfs.py b/core/ratarmountcore/mountsource/formats/squashfs.py
index ed8c0f0..4621179 100644
--- a/core/ratarmountcore/mountsource/formats/squashfs.py
+++ b/core/ratarmountcore/mountsource/formats/squashfs.py
@@ -507,7 +507,10 @@ class SquashFSMountSource(SQLiteIndexMountSource):
         # configured in the SquashFS image. It probably makes no sense to reduce or increase that buffer size.
         # Decreasing may reduce memory usage, but with Python and other things, memory usage is not a priority
         # in ratarmount as long as it is bounded for very large archives.
-        return self.image.open(self.image.read_inode(SQLiteIndex.get_index_userdata(fileInfo.userdata).offsetheader))
+        file = self.image.open(self.image.read_inode(SQLiteIndex.get_index_userdata(fileInfo.userdata).offsetheader))
+        # Opened files must stay readable when this mount source is not referenced anymore, e.g., after unmounting.
+        file.mountSource = self  # Else, __del__ would close the underlying archive.
+        return file
 
     @overrides(MountSource)
     def statfs(self) -> dict[str, Any]:
diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index bd4d873..74e6569 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -1026,9 +1026,14 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
 
     def _open_stencil(self, fileStencils: Sequence[tuple[IO, int, int]], buffering: int) -> IO[bytes]:
         bufferSize = self.blockSize if buffering == -1 else buffering
-        if bufferSize == 0:
-            return cast(IO[bytes], RawStenciledFile(fileStencils, self.fileObjectLock))
-        return cast(IO[bytes], StenciledFile(fileStencils, self.fileObjectLock, bufferSize=bufferSize))
+        file: Any = (
+            RawStenciledFile(fileStencils, self.fileObjectLock)
+            if bufferSize == 0
+            else StenciledFile(fileStencils, self.fileObjectLock, bufferSize=bufferSize)
+        )
+        # Opened files must stay readable when this mount source is not referenced anymore, e.g., after unmounting.
+        file.mountSource = self  # Else, __del__ would close the underlying archive.
+        return cast(IO[bytes], file)
 
     @overrides(MountSource)
     def open(self, fileInfo: FileInfo, buffering=-1) -> IO[bytes]:
-- 
2.43.0


From 63f9b48e214e3214becb403d2c030baf60a424ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:39 +0000
Subject: [PATCH 46/56] fix: Unmounting through the control interface must also
 forget automatic mounts inside it

Also do not try to mount directories as archives in lazy mode.
---
 .../mountsource/compositing/automount.py       | 18 ++++++++++++++++--
 ratarmount/FuseMount.py                        | 11 +++++++++--
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/automount.py b/core/ratarmountcore/mountsource/compositing/automount.py
index 35f4b07..2c42f72 100644
--- a/core/ratarmountcore/mountsource/compositing/automount.py
+++ b/core/ratarmountcore/mountsource/compositing/automount.py
@@ -39,6 +39,8 @@ class AutoMountLayer(MountSource):
         mountSource: MountSource
         rootFileInfo: FileInfo
         recursionDepth: int
+        # Path of the mounted archive inside this layer.
+        archivePath: str = ''
 
     def __init__(self, mountSource: MountSource, **options) -> None:
         if isinstance(mountSource, AutoMountLayer):
@@ -158,7 +160,7 @@ class AutoMountLayer(MountSource):
         parentMountSource = parentMountInfo.mountSource
 
         archiveFileInfo = parentMountSource.lookup(pathInsideParentMountPoint)
-        if archiveFileInfo is None:
+        if archiveFileInfo is None or stat.S_ISDIR(archiveFileInfo.mode):
             return None
 
         # Do not mount uncompressed TARs inside SQLiteIndexedTar when they already were mounted recursively!
@@ -234,7 +236,7 @@ class AutoMountLayer(MountSource):
         rootFileInfo.mode = create_folder_from_file_permissions(rootFileInfo.mode)
         rootFileInfo.linkname = ""
         rootFileInfo.userdata = [mountPoint]
-        mountInfo = AutoMountLayer.MountInfo(mountSource, rootFileInfo, recursionDepth)
+        mountInfo = AutoMountLayer.MountInfo(mountSource, rootFileInfo, recursionDepth, path)
 
         # TODO What if the mount point already exists, e.g., because stripRecursiveTarExtension is true and there
         #      are multiple archives with the same name but different extensions?
@@ -243,6 +245,18 @@ class AutoMountLayer(MountSource):
 
         return mountPoint
 
+    def forget_mounted(self, path: str) -> None:
+        """Removes all automatic mounts of archives at or below the given path because it has been unmounted."""
+        mounted = self.mounted.copy()
+        removed = ['/' + path.strip('/')]
+        while removed:
+            folder = removed.pop()
+            for mountPoint, mountInfo in list(mounted.items()):
+                if mountPoint != '/' and (mountInfo.archivePath + '/').startswith(folder + '/'):
+                    del mounted[mountPoint]
+                    removed.append(mountPoint)
+        self.mounted = mounted
+
     def _find_mounted(self, path: str) -> tuple[str, str]:
         """
         Returns the mount point, which can be found in self.mounted, and the rest of the path.
diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 4c12ccf..d9c8a67 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -135,6 +135,7 @@ class FuseMount(fuse.Operations):
         # Ratarmount subprocesses started via /.ratarmount-control/command. Will be terminated on close.
         self._subprocesses: list[subprocess.Popen] = []
         self._subvolumes: Optional[SubvolumesMountSource] = None
+        self._autoMountLayer: Optional[AutoMountLayer] = None
 
         # Only open the log file at the end shortly before it is needed to not end up with an empty file on error.
         # Read it from 'options' as soon as possible to not forward it as a MountSource options.
@@ -250,7 +251,7 @@ class FuseMount(fuse.Operations):
         )
 
         if determine_recursion_depth(**options) > 0:
-            self.mountSource = AutoMountLayer(self.mountSource, **options)
+            self.mountSource = self._autoMountLayer = AutoMountLayer(self.mountSource, **options)
 
         if options.get('enableFileVersions', True):
             self.mountSource = FileVersionLayer(self.mountSource)
@@ -546,7 +547,13 @@ class FuseMount(fuse.Operations):
     def unmount(self, path: str) -> bool:
         if not self._subvolumes:
             return False
-        return bool(self._subvolumes.unmount(path))
+        # Normalize similarly to SubvolumesMountSource.
+        path = os.path.normpath('/' + path)
+        if not self._subvolumes.unmount(path):
+            return False
+        if self._autoMountLayer:
+            self._autoMountLayer.forget_mounted(path)
+        return True
 
     def _process_parsed_arguments(self, args) -> Optional[list[str]]:
         """
-- 
2.43.0


From 598b8742fac6bad280dc4f6ca82b4f0058972a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 47/56] fix: Versions of files that do not exist must not wrap
 around to existing ones

---
 core/ratarmountcore/mountsource/compositing/automount.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/ratarmountcore/mountsource/compositing/automount.py b/core/ratarmountcore/mountsource/compositing/automount.py
index 2c42f72..efadefe 100644
--- a/core/ratarmountcore/mountsource/compositing/automount.py
+++ b/core/ratarmountcore/mountsource/compositing/automount.py
@@ -307,6 +307,8 @@ class AutoMountLayer(MountSource):
         # fileVersion=0 is the most recent. Version 1..fileVersions number from the first occurrence / oldest
         # version to the most recent, i.e., fileVersion = 0 is equivalent to fileVersion = fileVersions.
         fileVersions = self.versions(path)
+        if fileVersions > 1 and not -fileVersions < fileVersion <= fileVersions:
+            return None
         fileVersion = normalize_file_version(fileVersion, fileVersions)
         if fileVersion == 0 and pathInMountPoint == '/':
             return mountInfo.rootFileInfo.clone()
-- 
2.43.0


From 2acea63047f7bb7172f36f1fbcb7b755823fae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 48/56] fix: Hard links in nested TARs, with transformations,
 and with libarchive must refer to their targets

Hard links in recursively mounted TARs showed files of the outer TAR with the same name, or nothing.
Hard links in subfolders became dangling symbolic links when opened with libarchive.
---
 core/ratarmountcore/mountsource/formats/libarchive.py | 6 +++++-
 core/ratarmountcore/mountsource/formats/tar.py        | 9 ++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index b472305..2881f05 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -133,8 +133,12 @@ class ArchiveEntry:
 
         mode = self.mode() & 0o777
         linkname = self.linkname()
-        if linkname:
+        if linkname and self.is_symbolic_link():
             mode = mode | stat.S_IFLNK
+        elif linkname:
+            # Hard links have no file type, same as for SQLiteIndexedTar. FileVersionLayer resolves them.
+            # The link target is relative to the archive root, so it cannot be shown as a symbolic link.
+            linkname = transform('/' + linkname)
         else:
             linkname = ""
             mode = mode | (stat.S_IFDIR if self.is_directory() else stat.S_IFREG)
diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 74e6569..d6f0ac3 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -238,6 +238,13 @@ class _TarFileMetadataReader:
             fullPath += "/"
         path, name = SQLiteIndex.normpath(transform(fullPath)).rsplit("/", 1)
 
+        # The targets of hard links inside nested TARs are relative to the nested TAR and they get transformed, too.
+        linkName = tarInfo.linkname
+        if tarInfo.islnk():
+            target = SQLiteIndex.normpath(transform(pathPrefix + "/" + linkName))
+            if target != SQLiteIndex.normpath("/" + linkName):
+                linkName = target
+
         # TODO: As for the tarfile type SQLite expects int but it is generally bytes.
         #       Most of them would be convertible to int like tarfile.SYMTYPE which is b'2',
         #       but others should throw errors, like GNUTYPE_SPARSE which is b'S'.
@@ -252,7 +259,7 @@ class _TarFileMetadataReader:
             tarInfo.mtime                                   ,  # 5  : modification time
             _TarFileMetadataReader._tar_info_full_mode(tarInfo),  # 6  : file mode / permissions
             tarInfo.type                                    ,  # 7  : TAR file type. Currently unused.
-            tarInfo.linkname                                ,  # 8  : linkname
+            linkName                                        ,  # 8  : linkname
             tarInfo.uid                                     ,  # 9  : user ID
             tarInfo.gid                                     ,  # 10 : group ID
             False                                           ,  # 11 : is TAR (unused?)
-- 
2.43.0


From 70ed6602ed25191e9b731d185e9fac3b41e6452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 49/56] fix: Hard links must show what has been stored under
 the name of their target before them

Links to their own path showed the oldest version instead of the previous one, others showed newer versions,
and hard links in version folders were not resolved. Also, version folders for files that do not exist resulted
in an assertion error.
---
 .../mountsource/compositing/versioning.py     | 90 ++++++++++---------
 1 file changed, 48 insertions(+), 42 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/versioning.py b/core/ratarmountcore/mountsource/compositing/versioning.py
index 97efbd8..91f817f 100644
--- a/core/ratarmountcore/mountsource/compositing/versioning.py
+++ b/core/ratarmountcore/mountsource/compositing/versioning.py
@@ -89,6 +89,9 @@ class FileVersionLayer(MountSource):
         if fileVersion is None:
             return None
 
+        if pathIsSpecialVersionsFolder and not self.mountSource.lookup(filePath):
+            return None
+
         return filePath, pathIsSpecialVersionsFolder, (0 if pathIsSpecialVersionsFolder else fileVersion)
 
     @staticmethod
@@ -103,51 +106,54 @@ class FileVersionLayer(MountSource):
         return os.path.normpath('/' + fileInfo.linkname.lstrip('/')) if FileVersionLayer._is_hard_link(fileInfo) else None
 
     @staticmethod
-    def _resolve_hard_links(mountSource: MountSource, path: str) -> Optional[FileInfo]:
-        """path : Simple path. Should contain no special versioning folders!"""
+    def _lookup_hard_link_target(mountSource: MountSource, fileInfo: FileInfo) -> Optional[FileInfo]:
+        """
+        A hard link refers to what has been stored under the name of its target at the time the link was stored, i.e.,
+        neither to newer versions nor to files with the same name in other mount sources. This includes links to
+        their own path, which refer to older versions of the file.
+        """
 
-        fileInfo = mountSource.lookup(path)
-        if not fileInfo:
+        def get_location(info: FileInfo) -> tuple[str, MountSource, Optional[int]]:
+            mountPoint, source, sourceInfo = mountSource.get_mount_source(info)
+            userData = sourceInfo.userdata[-1] if sourceInfo.userdata else None
+            return mountPoint, source, getattr(userData, 'offsetheader', None)
+
+        # Link targets are relative to the mount source. That's why we need the mount point to get the full path
+        # in respect to this mount source. And we must get a file info object for this mount source, so we have to
+        # get that using the full path instead of calling lookup on the deepest mount source.
+        mountPoint, source, offset = get_location(fileInfo)
+        path = FileVersionLayer._get_hard_link_target(fileInfo)
+        if not path:
             return None
+        path = os.path.join(mountPoint, path.lstrip('/'))
+
+        fallback: Optional[FileInfo] = None
+        fallbackIsFromSameSource = False
+        for version in range(mountSource.versions(path)):
+            target = mountSource.lookup(path, -version)  # 0 is the newest version, -1 the one before, ...
+            if not target:
+                break
+            _, targetSource, targetOffset = get_location(target)
+            isFromSameSource = targetSource is source
+            if isFromSameSource and (offset is None or targetOffset is None or targetOffset < offset):
+                return target
+            if targetOffset == offset and isFromSameSource:
+                continue  # It is the link itself.
+            if fallback is None or (isFromSameSource and not fallbackIsFromSameSource):
+                fallback = target
+                fallbackIsFromSameSource = isFromSameSource
+        return fallback
 
-        resolvedPath = FileVersionLayer._get_hard_link_target(fileInfo)
-        fileVersion = 0
-        hardLinkCount = 0
-
-        while resolvedPath and hardLinkCount < 128:  # For comparison, the maximum symbolic link chain in Linux is 40.
-            # Link targets are relative to the mount source. That's why we need the mount point to get the full path
-            # in respect to this mount source. And we must a file info object for this mount source, so we have to
-            # get that using the full path instead of calling lookup on the deepest mount source.
-            mountPoint, _, _ = mountSource.get_mount_source(fileInfo)
-
-            resolvedPath = os.path.join(mountPoint, resolvedPath.lstrip('/'))
-
-            if resolvedPath != path:  # noqa: SIM108
-                # The file version is only of importance to resolve self-references.
-                # It seems undecidable to me whether to return the given fileVersion or 0 here.
-                # Returning 0 would feel more correct because the we switched to another file and the version
-                # for that file is the most recent one.
-                # However, resetting the file version to 0 means that if there is a cycle, i.e., two hardlinks
-                # of different names referencing each other, than the file version will always be reset to 0
-                # and we have no break condition, entering an infinite loop.
-                # The most correct version would be to track the version of each path in a map and count up the
-                # version per path.
-                # TODO Is such a hardlink cycle even possible?!
-                fileVersion = 0
-            else:
-                # If file is referencing itself, try to access earlier version of it.
-                # The check for fileVersion against the total number of available file versions is omitted because
-                # that check is done implicitly inside the mount sources lookup method!
-                fileVersion = fileVersion + 1 if fileVersion >= 0 else fileVersion - 1
-
-            path = resolvedPath
-            fileInfo = mountSource.lookup(path, fileVersion)
-            if not fileInfo:
-                return None
-
-            resolvedPath = FileVersionLayer._get_hard_link_target(fileInfo)
-            hardLinkCount += 1
+    @staticmethod
+    def _resolve_hard_links(mountSource: MountSource, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
+        """path : Simple path. Should contain no special versioning folders!"""
 
+        fileInfo = mountSource.lookup(path, fileVersion)
+        # Limit the number of links in case of cycles. For comparison, the maximum symbolic link chain in Linux is 40.
+        for _ in range(128):
+            if not fileInfo or not FileVersionLayer._is_hard_link(fileInfo):
+                break
+            fileInfo = FileVersionLayer._lookup_hard_link_target(mountSource, fileInfo)
         return fileInfo
 
     @overrides(MountSource)
@@ -228,7 +234,7 @@ class FileVersionLayer(MountSource):
             # fmt: on
 
         # 3.) At this point the request is for an actually older version of a file or folder
-        fileInfo = self.mountSource.lookup(path, fileVersion=fileVersion)
+        fileInfo = FileVersionLayer._resolve_hard_links(self.mountSource, path, fileVersion)
         if fileInfo:
             fileInfo.userdata.append(FileType.FILE)
         return fileInfo
-- 
2.43.0


From 1aa980bd71b7f7949755cb265c27a27a48be2d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:41 +0000
Subject: [PATCH 50/56] fix: Names that are not valid Unicode must not be found
 instead of resulting in errors

---
 core/ratarmountcore/SQLiteIndex.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index dd366f5..2b4ac03 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -843,6 +843,15 @@ class SQLiteIndex:
         # This effect is good to have for inserting rows but not for querying rows.
         return '/' + posixpath.normpath(path if path.startswith('../') else '/' + path).lstrip('/')
 
+    @staticmethod
+    def _is_storable(text: str) -> bool:
+        """Names that are not valid Unicode are never stored in the index, see _escape_invalid_characters."""
+        try:
+            text.encode()
+        except UnicodeEncodeError:
+            return False
+        return True
+
     def list(self, path: str) -> Optional[dict[str, FileInfo]]:
         """
         Return a dictionary for the given directory path: { fileName : FileInfo, ... } or None
@@ -876,6 +885,9 @@ class SQLiteIndex:
         # > Dictionaries preserve insertion order. Note that updating a key does not affect the order.
         # > Keys added after deletion are inserted at the end.
 
+        if not self._is_storable(path):
+            return None
+
         # https://www.sqlite.org/pragma.html#pragma_table_info
         columns = [row[0] for row in self.get_connection().execute("SELECT name FROM PRAGMA_TABLE_INFO('files');")]
         selected_columns = ['name', 'size', 'mtime', 'mode', 'linkname', 'uid', 'gid', 'offset', 'istar']
@@ -934,6 +946,9 @@ class SQLiteIndex:
         # The only difference here is that we do not request all columns, but only two in a tuple.
         # sqlite3.Row rows also support indexing, so there is no need to change the row factory for the connection,
         # which might be used by other threads.
+        if not self._is_storable(path):
+            return None
+
         rows = self.get_connection().execute(
             'SELECT name,mode FROM "files" WHERE "path" == (?) ORDER BY "offsetheader"',
             (self._query_normpath(path).rstrip('/'),),
@@ -952,6 +967,9 @@ class SQLiteIndex:
         path : full path to file where '/' denotes TAR's root, e.g., '/', or '/foo'
         """
 
+        if not self._is_storable(path):
+            return {}
+
         path = self._query_normpath(path)
         if path == '/':
             return {'/': create_root_file_info(userdata=[SQLiteIndexedTarUserData(0, 0, False, False, True, 0)])}
@@ -975,6 +993,9 @@ class SQLiteIndex:
         if not isinstance(fileVersion, int):
             raise RatarmountError("The specified file version must be an integer!")
 
+        if not self._is_storable(path):
+            return None
+
         path = self._query_normpath(path)
         if path == '/':
             return create_root_file_info(userdata=[SQLiteIndexedTarUserData(0, 0, False, False, True, 0)])
@@ -1026,7 +1047,7 @@ class SQLiteIndex:
             return None
 
         userData = fileInfo.userdata[-1]
-        if not isinstance(userData, SQLiteIndexedTarUserData) or userData.isgenerated:
+        if not isinstance(userData, SQLiteIndexedTarUserData) or userData.isgenerated or not self._is_storable(key):
             return None
 
         try:
-- 
2.43.0


From 6cea9008de38116a7013885d6af1e700ff67030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:41 +0000
Subject: [PATCH 51/56] fix: Folders in SQLAR archives may contain special
 characters for patterns

---
 .../mountsource/formats/sqlar.py              | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/sqlar.py b/core/ratarmountcore/mountsource/formats/sqlar.py
index 4142310..8a0ea70 100644
--- a/core/ratarmountcore/mountsource/formats/sqlar.py
+++ b/core/ratarmountcore/mountsource/formats/sqlar.py
@@ -1,4 +1,5 @@
 import posixpath
+import re
 import shutil
 import sqlite3
 import sys
@@ -291,18 +292,24 @@ class SQLARMountSource(MountSource):
                 names.append(name)
         return names
 
+    @staticmethod
+    def _escape_glob(path: str) -> str:
+        return re.sub(r'([*?\[])', r'[\1]', path)
+
     @overrides(MountSource)
     def list(self, path: str) -> Optional[Union[Iterable[str], dict[str, FileInfo]]]:
         if self._files:
             return self._list_names(path)
 
-        pathGlob = "*" if path == "/" else path.strip("/") + "/*"
+        path = path.strip("/")
+        pathGlob = self._escape_glob(path) + "/*" if path else "*"
+        nameOffset = len(path) + 2 if path else 1
         return {
             name: SQLARMountSource._convert_to_file_info(rowid, mode, mtime, size, linkname)
             for name, rowid, mode, mtime, size, linkname in self.connection.execute(
                 f"SELECT substr(name,(?)),{SQLARMountSource._SQLITE_FILEINFO_COLUMNS} FROM sqlar "
                 "WHERE name GLOB (?) AND substr(name,(?)) NOT GLOB '*/*'",
-                (len(pathGlob), pathGlob, len(pathGlob)),
+                (nameOffset, pathGlob, nameOffset),
             )
         }
 
@@ -311,11 +318,13 @@ class SQLARMountSource(MountSource):
         if self._files:
             return self._list_names(path)
 
-        pathGlob = "*" if path == "/" else path.strip("/") + "/*"
+        path = path.strip("/")
+        pathGlob = self._escape_glob(path) + "/*" if path else "*"
+        nameOffset = len(path) + 2 if path else 1
         return dict(
             self.connection.execute(
                 "SELECT substr(name,(?)), mode FROM sqlar WHERE name GLOB (?) AND substr(name,(?)) NOT GLOB '*/*'",
-                (len(pathGlob), pathGlob, len(pathGlob)),
+                (nameOffset, pathGlob, nameOffset),
             )
         )
 
@@ -335,9 +344,12 @@ class SQLARMountSource(MountSource):
                 f"SELECT {SQLARMountSource._SQLITE_FILEINFO_COLUMNS} FROM sqlar WHERE rowid=(?)", (rowid,)
             ).fetchone()
         else:
-            result = self.connection.execute(
-                f"SELECT {SQLARMountSource._SQLITE_FILEINFO_COLUMNS} FROM sqlar WHERE name=(?)", (path.strip("/"),)
-            ).fetchone()
+            try:
+                result = self.connection.execute(
+                    f"SELECT {SQLARMountSource._SQLITE_FILEINFO_COLUMNS} FROM sqlar WHERE name=(?)", (path.strip("/"),)
+                ).fetchone()
+            except UnicodeEncodeError:
+                return None  # Names that are not valid Unicode cannot be stored in SQLAR.
 
         return self._convert_to_file_info(*result) if result else None
 
-- 
2.43.0


From 869f9f09ad1e82f776b750f148f416419f320953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:41 +0000
Subject: [PATCH 52/56] fix: Check the range of file versions for mount sources
 that do not

---
 core/ratarmountcore/mountsource/compositing/versioning.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/ratarmountcore/mountsource/compositing/versioning.py b/core/ratarmountcore/mountsource/compositing/versioning.py
index 91f817f..fe63763 100644
--- a/core/ratarmountcore/mountsource/compositing/versioning.py
+++ b/core/ratarmountcore/mountsource/compositing/versioning.py
@@ -234,6 +234,10 @@ class FileVersionLayer(MountSource):
             # fmt: on
 
         # 3.) At this point the request is for an actually older version of a file or folder
+        # Not all mount sources check the version.
+        fileVersions = self.mountSource.versions(path)
+        if not -fileVersions < fileVersion <= fileVersions:
+            return None
         fileInfo = FileVersionLayer._resolve_hard_links(self.mountSource, path, fileVersion)
         if fileInfo:
             fileInfo.userdata.append(FileType.FILE)
-- 
2.43.0


From 0b1cae0349ccc5b97ee91e15aa4e03782528f5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:41 +0000
Subject: [PATCH 53/56] fix: Return exact timestamps and the parent of
 top-level folders

Listing top-level folders failed for mount sources that do not know the empty path.
---
 ratarmount/FuseMount.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index d9c8a67..3dd4669 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -3,6 +3,7 @@ import ctypes
 import errno
 import io
 import logging
+import math
 import os
 import subprocess
 import sys
@@ -742,7 +743,8 @@ class FuseMount(fuse.Operations):
             'st_mode': fileInfo.mode,
             'st_uid': fileInfo.uid,
             'st_gid': fileInfo.gid,
-            'st_mtime': int(fileInfo.mtime * 1e9),
+            # Convert seconds and fraction separately because the product would be inexact for large timestamps.
+            'st_mtime': math.floor(fileInfo.mtime) * 10**9 + int(fileInfo.mtime % 1 * 1e9),
             'st_nlink': 1,  # TODO: this is wrong for files with hardlinks,
             # `du` sums disk usage (the number of blocks used by a file) instead of the file sizes by default.
             # So, we need to return some valid values. Tar files are usually a series of 512 B blocks, but this
@@ -775,7 +777,7 @@ class FuseMount(fuse.Operations):
             if path == '/':
                 yield '..', self.mountPointInfo['st_mode'], 0
             else:
-                yield '..', self.getattr(path.rsplit('/', 1)[0])['st_mode'], 0
+                yield '..', self.getattr(path.rsplit('/', 1)[0] or '/')['st_mode'], 0
         else:
             yield '.'
             yield '..'
-- 
2.43.0


From 082cd886b42847d0c132bc48b4c9c22a1f0dff3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:27 +0000
Subject: [PATCH 54/56] fix: Committing must keep hard links to files changed
 in the overlay as they are shown

Hard links show what has been stored before them and not the changed file from the overlay.
---
 ratarmount/WriteOverlay.py | 73 +++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 40 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index d7572b8..ef8f716 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -12,7 +12,7 @@ import time
 import traceback
 import urllib.parse
 from collections.abc import Iterable, Mapping
-from typing import Any, Callable, Optional, Union
+from typing import Any, Callable, Optional
 
 from ratarmountcore.formats import is_tar
 from ratarmountcore.mountsource import FileInfo, MountSource
@@ -714,19 +714,13 @@ def _get_overlay_paths(writeOverlay: str) -> tuple[set[str], list[str], list[str
     return deleted, folders, files
 
 
-def _append_hard_link(
-    oldArchive: tarfile.TarFile, newArchive: tarfile.TarFile, member: tarfile.TarInfo, target: Union[str, tarfile.TarInfo]
+def _append_hard_link_contents(
+    oldArchive: tarfile.TarFile, newArchive: tarfile.TarFile, member: tarfile.TarInfo, target: tarfile.TarInfo
 ) -> None:
     newMember = tarfile.TarInfo(member.name)
     for key in ['mode', 'uid', 'gid', 'uname', 'gname', 'mtime']:
         setattr(newMember, key, getattr(member, key))
 
-    if isinstance(target, str):
-        newMember.type = tarfile.LNKTYPE
-        newMember.linkname = target
-        newArchive.addfile(newMember)
-        return
-
     newMember.pax_headers = {k: v for k, v in target.pax_headers.items() if k.startswith('SCHILY.xattr.')}
     if target.isreg():
         newMember.size = target.size
@@ -784,41 +778,40 @@ def _commit_overlay(
             namesToDelete.add(member.name)
     deletedPaths = {_normalize_member_name(name) for name in namesToDelete}
 
-    # Hard links refer by name to the newest version of the target. If that is in the overlay, they must be moved behind
-    # it, and if it will be deleted, they have to be replaced with the contents of the target.
+    # Hard links refer by name to what has been stored before them, same as in FileVersionLayer. If that will be deleted,
+    # they have to be replaced with the contents of the target.
     versions: dict[str, list[tarfile.TarInfo]] = {}
     for path, member in members:
         versions.setdefault(path, []).append(member)
-    hardLinks: list[tuple[tarfile.TarInfo, Union[str, tarfile.TarInfo]]] = []
-    for memberPath in versions:
-        member = target = versions[memberPath][-1]
-        path = memberPath
-        version = 0
-        losesTarget = False
-        if member.name in namesToDelete:
-            continue
-        for _ in range(128):  # Same maximum number of links to follow as in FileVersionLayer.
-            if not target.islnk():
-                break
-            linkPath = _normalize_member_name(target.linkname)
-            version = version + 1 if linkPath == path else 0
-            path = linkPath
-            if path in filesToAdd:
-                hardLinks.append((member, path))
-                break
-            if len(versions.get(path, [])) <= version:
-                break
-            losesTarget = losesTarget or path in deletedPaths
-            target = versions[path][-1 - version]
-        if losesTarget and not target.islnk():
-            hardLinks.append((member, target))
-    namesToDelete.update(member.name for member, _ in hardLinks)
+    hardLinks: dict[str, tuple[tarfile.TarInfo, tarfile.TarInfo]] = {}
+    foundHardLinks = True
+    while foundHardLinks:  # Replacing a hard link deletes all of its versions, to which others might refer.
+        foundHardLinks = False
+        for memberPath, memberVersions in versions.items():
+            member = target = memberVersions[-1]
+            if member.name in namesToDelete:
+                continue
+            losesTarget = False
+            for _ in range(128):  # Same maximum number of links to follow as in FileVersionLayer.
+                if not target.islnk():
+                    break
+                path = _normalize_member_name(target.linkname)
+                candidates = [version for version in versions.get(path, []) if version is not target]
+                if not candidates:
+                    break
+                losesTarget = losesTarget or path in deletedPaths
+                target = next((v for v in reversed(candidates) if v.offset < target.offset), candidates[-1])
+            if losesTarget and not target.islnk():
+                hardLinks[memberPath] = (member, target)
+                namesToDelete.add(member.name)
+                deletedPaths.add(memberPath)
+                foundHardLinks = True
 
     # Folders may only exist implicitly because of other members. Add those that would vanish and also new ones.
     members = [(path, member) for path, member in members if path]
     keptPaths = {path for path, member in members if member.name not in namesToDelete}
     keptPaths.update(overlayFiles)
-    keptPaths.update(_normalize_member_name(member.name) for member, _ in hardLinks)
+    keptPaths.update(hardLinks)
     existingFolders = {path for path, member in members if member.isdir()}.intersection(keptPaths)
     existingFolders.update(parent for path in keptPaths for parent in _get_parents(path))
     newFolders = [path for path in overlayFolders if path not in existingFolders]
@@ -853,8 +846,8 @@ def _commit_overlay(
             print(f"    tar --append -C '{writeOverlay}' --null --no-unquote --no-recursion \\")
             print(f"        --files-from='{appendList}' --force-local --file '{tarFile}'")
 
-        for member, _ in hardLinks:
-            print(f"    # Append '{member.name}', which is a hard link to a changed or deleted file.")
+        for member, _ in hardLinks.values():
+            print(f"    # Append '{member.name}', which was a hard link to a changed or deleted file.")
         for path in sorted(vanishedFolders):
             print(f"    # Append empty folder '{path}'.")
         print()
@@ -895,8 +888,8 @@ def _commit_overlay(
 
         if hardLinks or vanishedFolders:
             with tarfile.open(temporaryTar, 'a:', encoding=encoding) as newArchive:
-                for member, target in hardLinks:
-                    _append_hard_link(archive, newArchive, member, target)
+                for member, target in hardLinks.values():
+                    _append_hard_link_contents(archive, newArchive, member, target)
                 for path in sorted(vanishedFolders):
                     newMember = tarfile.TarInfo(path)
                     newMember.type = tarfile.DIRTYPE
-- 
2.43.0


From f19975664fe7e40f153c742178892fb596b8ef1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:52 +0000
Subject: [PATCH 55/56] fix: Opening libarchive members must not fail because
 of an archive that ended early before

---
 .../mountsource/formats/libarchive.py            | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index 2881f05..c7c1e1b 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -448,11 +448,19 @@ class LibarchiveFile(io.RawIOBase):
         self._release()
 
         self._archive = self._archiveCache.take(self.entry_index)
-        if self._archive is None:
-            self._archive = IterableArchive(
-                self.file, passwords=self.passwords, fileLock=self._archiveCache.fileLock
-            )
+        if self._archive is not None:
+            try:
+                self._open_entry()
+                return
+            except Exception:
+                # It may have read the end of the file too early. Try again from the beginning.
+                self._archive.broken = True
+                self._release()
+
+        self._archive = IterableArchive(self.file, passwords=self.passwords, fileLock=self._archiveCache.fileLock)
+        self._open_entry()
 
+    def _open_entry(self):
         while True:
             self._entry = self._archive.next_entry()
             if self._entry is None:
-- 
2.43.0


From 07871d1acecf3b14bf2a142567b8414e0d8261a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:44 +0000
Subject: [PATCH 56/56] fix: A locked index must not keep archives from being
 mounted when checksums are requested

---
 .../mountsource/SQLiteIndexMountSource.py           | 13 ++++++++++++-
 core/ratarmountcore/mountsource/formats/tar.py      |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
index e549920..72777e8 100644
--- a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
+++ b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
@@ -5,6 +5,7 @@ import json
 import logging
 import re
 import shutil
+import sqlite3
 import tempfile
 from collections.abc import Iterable
 from typing import IO, Any, Callable, Optional, Union
@@ -208,6 +209,16 @@ class SQLiteIndexMountSource(MountSource):
         if xattrs:
             self.index.setxattrs(xattrs)
 
+    def _resume_hashes(self) -> None:
+        """Adds missing checksums to an existing index if that is possible."""
+        try:
+            self._compute_and_store_hashes()
+            self.index.get_connection().commit()
+        except sqlite3.OperationalError as exception:
+            # The index can be used without checksums, e.g., while another mount has locked it.
+            logger.warning("Could not store checksums into the existing index: %s", exception)
+            self.index.get_connection().rollback()
+
     def _finalize_index(
         self,
         create_index: Callable[[], None],
@@ -220,7 +231,7 @@ class SQLiteIndexMountSource(MountSource):
             # index_is_loaded checks for completed 'files' (stats etc.) table.
             # It does not check regarding xattrs completenes. We need to check whether some hashes
             # should still be computed.
-            self._compute_and_store_hashes()
+            self._resume_hashes()
             # The metadata has already been checked to match during loading. Do not write to the database if not
             # necessary because that fails if the index is in use by another mount.
             if not self.index.metadata_is_stored():
diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index d6f0ac3..02c6d05 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -699,7 +699,7 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
         if self.index.index_is_loaded():
             if not self.hasBeenAppendedTo:  # indirectly set by a successful call to _try_load_index
                 self._load_or_store_compression_offsets()  # load
-                self._compute_and_store_hashes()  # resume
+                self._resume_hashes()
                 self.index.reload_index_read_only()
                 return
 
-- 
2.43.0

